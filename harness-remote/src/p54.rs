//! P54: what holds between local actors holds as well with the feature for remote actors, on a node that has not been brought up, that
//! has, or that is brought up meanwhile. The scenarios and oracles are those of the local properties.
use crate::kit::*;
use crate::scn;
use kameo::remote::ActorSwarm;

fn up() {
    let id = crate::net::l();
    match ActorSwarm::bootstrap_manual(id) {
        // kept: a node whose handler is gone has been shut down
        Some((_, handler)) => std::mem::forget(handler),
        None => fail("the node was up already"),
    }
}

fn on_a_node(s: Scn) -> Scn {
    let name: &'static str = Box::leak(format!("node-{}-{}", s.prop, s.name).into_boxed_str());
    let quantity = s.name.starts_with("large-");
    let make = s.make;
    Scn {
        name,
        prop: "P54",
        quick: if quantity && !["large-idents", "large-star", "large-handles", "large-chain"].contains(&s.name) { SKIP } else { s.quick.min(1) },
        thorough: s.thorough.min(3),
        opts: s.opts,
        about: s.about,
        make: Box::new(move || {
            let p = make();
            Program {
                root: Box::new(move || {
                    match choose(3) {
                        0 => {}
                        1 => up(),
                        _ => {
                            tokio::task::spawn_opts(mcrt::TaskOpts { name: "up".into(), must_finish: true }, async { up() });
                        }
                    }
                    (p.root)()
                }),
                check: p.check,
            }
        }),
    }
}

pub fn all() -> Vec<Scn> {
    let mut v = vec![];
    v.extend(scn::core::scenarios());
    v.extend(scn::ends::scenarios());
    v.extend(scn::ident::scenarios());
    v.extend(scn::large::scenarios());
    v.extend(scn::life::scenarios());
    v.extend(scn::links::scenarios());
    v.extend(scn::send::scenarios());
    v.extend(scn::start::scenarios());
    v.extend(scn::values::scenarios());
    v.into_iter().filter(|s| s.quick != SKIP).map(on_a_node).collect()
}
