//! P01: one at a time, in order.
use crate::kit::*;

pub fn scenarios() -> Vec<Scn> {
    vec![
        scn("P01", "two-senders-tell", 2, 3, "two clients tell two messages each; mailbox bounded(1), bounded(2), unbounded", || {
            let mb = || match choose(3) {
                0 => Mb::B(1),
                1 => Mb::B(2),
                _ => Mb::U,
            };
            prog(
                move || async move {
                    let a = spawn_t(t("A"), mb());
                    for c in 0..2u32 {
                        let a = a.clone();
                        client(["c0", "c1"][c as usize], async move {
                            for i in 0..2 {
                                let id = 10 * (c + 1) + i;
                                a.tell(m_yield(id, 1)).send().await.unwrap();
                                ev("A", "sent", id as i64, "");
                            }
                        });
                    }
                },
                |f, l, v| {
                    all_done(f, v);
                    let h = l.ns("A", "begin");
                    for c in 1..=2 {
                        let mine: Vec<i64> = h.iter().copied().filter(|x| x / 10 == c).collect();
                        if mine != vec![10 * c, 10 * c + 1] {
                            v.push(format!("order: client {c}'s messages were handled as {mine:?}"));
                        }
                    }
                },
            )
        }),
    ]
}
