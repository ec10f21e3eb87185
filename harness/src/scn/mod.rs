pub mod bus;
pub mod core;
pub mod ends;
pub mod ident;
pub mod large;
pub mod large2;
pub mod life;
pub mod mailbox;
pub mod links;
pub mod names;
pub mod pool;
pub mod registry;
pub mod send;
pub mod start;
pub mod values;
pub fn all() -> Vec<crate::kit::Scn> {
    let mut v = vec![];
    v.extend(bus::scenarios());
    v.extend(core::scenarios());
    v.extend(ends::scenarios());
    v.extend(ident::scenarios());
    v.extend(large::scenarios());
    v.extend(large2::scenarios());
    v.extend(life::scenarios());
    v.extend(mailbox::scenarios());
    v.extend(links::scenarios());
    v.extend(names::scenarios());
    v.extend(pool::scenarios());
    v.extend(registry::scenarios());
    v.extend(send::scenarios());
    v.extend(start::scenarios());
    v.extend(values::scenarios());
    v
}
