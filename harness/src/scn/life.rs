//! Lifecycle universes: each property with the script sets that matter to it.
use crate::kit::*;
use crate::uni::{Op::*, *};
use K::{Err as E, LatePanic as LP, Ok as O, Panic as P, Yield as Y};

const START_OK: &[(Outcome, u8)] = &[(Outcome::Ok, 0)];
const START_OKS: &[(Outcome, u8)] = &[(Outcome::Ok, 0), (Outcome::Ok, 1)];
const START_ALL: &[(Outcome, u8)] = &[(Outcome::Ok, 0), (Outcome::Ok, 1), (Outcome::Err(7), 0), (Outcome::Panic, 1)];
const STOP_ALL: &[(Outcome, u8)] = &[(Outcome::Ok, 1), (Outcome::Err(8), 0), (Outcome::Panic, 0)];
const DEF: &[PanicPolicy] = &[PanicPolicy::Default];
const DEFCONT: &[PanicPolicy] = &[PanicPolicy::Default, PanicPolicy::Continue];
const POLS: &[PanicPolicy] = &[PanicPolicy::Default, PanicPolicy::Continue, PanicPolicy::Break, PanicPolicy::BreakKilled, PanicPolicy::Err, PanicPolicy::Panic];
const MB12U: &[Mb] = &[Mb::B(1), Mb::B(2), Mb::U];
const MB1U: &[Mb] = &[Mb::B(1), Mb::U];

pub fn scenarios() -> Vec<Scn> {
    vec![
        universe("P01", "universe-order", 2, 3, "two clients mixing tell and ask, suspending and failing handlers, start-up with and without suspension", Spec {
            mbs: MB12U,
            starts: START_OKS,
            pols: &[PanicPolicy::Continue],
            c0: &[&[Tell(O), Tell(Y), Ask(O)], &[Tell(P), Tell(O), Tell(O)], &[Ask(Y), Tell(O), Tell(O)], &[TryTell(O), Tell(O), TryAsk(O)]],
            c1: &[&[], &[Tell(O), Tell(O)], &[Ask(O), Tell(O)], &[Tell(E), Ask(O)]],
            ..Default::default()
        }),
        universe("P02", "universe-once", 2, 3, "accepted messages with handlers that succeed, suspend, fail and continue; graceful stops", Spec {
            mbs: MB12U,
            starts: START_OKS,
            pols: DEFCONT,
            c0: &[&[Tell(O), Tell(Y), Tell(O)], &[Tell(P), Tell(O), Ask(O)], &[TryTell(Y), TryTell(O), TryTell(O)], &[Tell(Y), Stop, Tell(O)], &[Tell(O), Kill, Tell(O)]],
            c1: &[&[], &[Tell(O), TryTell(O)], &[Ask(E), Tell(E)]],
            ..Default::default()
        }),
        universe("P03", "universe-ask", 1, 3, "asks against an actor that replies, fails, panics, stops, is killed or fails to start", Spec {
            mbs: MB1U,
            starts: START_ALL,
            pols: DEFCONT,
            c0: &[&[Ask(O), Ask(Y)], &[Ask(E), Ask(O)], &[Ask(LP), Ask(O)], &[TryAsk(Y), TryAsk(O)], &[Tell(Y), Ask(P)]],
            c1: &[&[Ask(O)], &[Stop], &[Kill], &[Tell(P), Ask(O)], &[Ask(Y), Stop]],
            ..Default::default()
        }),
        universe("P06", "universe-startup", 2, 3, "messages of every kind racing with start-up", Spec {
            mbs: MB12U,
            starts: START_ALL,
            pols: DEFCONT,
            c0: &[&[Tell(O), Tell(O)], &[Tell(P), Tell(O)], &[Ask(O)], &[Kill]],
            c1: &[&[], &[Tell(O), Stop], &[Ask(O), Tell(O)]],
            ..Default::default()
        }),
        universe("P07", "universe-wait-startup", 1, 3, "a waiter for start-up against every way to end an actor during or after start-up, with mailboxes that fill up before start-up", Spec {
            mbs: MB12U,
            starts: START_ALL,
            pols: DEFCONT,
            c0: &[&[Stop], &[Kill], &[Tell(O), Tell(O), Stop], &[TryTell(P), Stop], &[TryTell(O), TryTell(O), Kill]],
            c1: &[&[], &[Tell(O)], &[TryTell(P)]],
            watch: true,
            ..Default::default()
        }).post(),
        universe("P08", "universe-stop", 2, 3, "graceful stops racing with messages before, around and after them", Spec {
            mbs: MB12U,
            starts: START_OKS,
            pols: DEFCONT,
            c0: &[&[Tell(O), Stop], &[Tell(Y), Tell(O), Stop, Tell(O)], &[Stop, Tell(O), Ask(O)], &[Tell(P), Tell(O), Stop], &[Stop, Stop]],
            c1: &[&[], &[Tell(Y), Tell(O)], &[Ask(O)], &[Stop]],
            ..Default::default()
        }),
        universe("P09", "universe-kill", 2, 3, "kills racing with handlers, queued messages, asks, stops and start-up", Spec {
            mbs: MB12U,
            starts: START_OKS,
            pols: &[PanicPolicy::Default, PanicPolicy::BreakKilled],
            c0: &[&[Kill], &[Tell(Y), Kill], &[Tell(Y), Tell(O), Kill, Kill], &[Kill, Tell(O), Ask(O)], &[Tell(O), Quiesce, Kill], &[Tell(P), Kill]],
            c1: &[&[], &[Ask(Y), Tell(O)], &[Tell(Y), Tell(Y)], &[Stop]],
            ..Default::default()
        }),
        universe("P10", "universe-refs", 2, 3, "references dropped before, between and after messages", Spec {
            mbs: MB12U,
            starts: START_OKS,
            pols: &[PanicPolicy::Continue],
            c0: &[&[Drop], &[Tell(O), Drop], &[Tell(Y), Tell(O), Drop], &[Tell(P), Tell(O), Drop], &[Ask(O), Drop]],
            c1: &[&[], &[Tell(Y), Drop], &[Yield, Tell(O), Drop], &[TryTell(O), TryTell(O), Quiesce]],
            ..Default::default()
        }),
        universe("P11", "universe-wait-shutdown", 1, 3, "a waiter for shutdown against every way to end an actor, with every stop hook outcome", Spec {
            mbs: MB1U,
            starts: START_ALL,
            stops: STOP_ALL,
            pols: DEF,
            c0: &[&[Stop], &[Kill], &[Tell(Y), Stop], &[Tell(P), Stop], &[Tell(E), Kill]],
            c1: &[&[], &[Tell(Y)], &[Stop]],
            watch: true,
        }).post(),
        universe("P12", "universe-failures", 2, 3, "panics and errors of tells and asks under every decision of the failure hook", Spec {
            mbs: MB1U,
            starts: START_OKS,
            pols: POLS,
            c0: &[&[Tell(P), Tell(O)], &[Tell(E), Tell(P), Tell(O)], &[Ask(E), Tell(O)], &[Ask(P), Ask(O)], &[Tell(LP), Ask(O), Tell(E)]],
            c1: &[&[], &[Tell(O), Tell(P)], &[Tell(E), Stop]],
            ..Default::default()
        }),
        universe("P16", "universe-reason", 1, 3, "the stop reason seen by the stop hook and by whoever awaits the actor, for every combination of causes", Spec {
            mbs: MB1U,
            starts: &[(Outcome::Ok, 0), (Outcome::Err(7), 0), (Outcome::Panic, 0)],
            stops: STOP_ALL,
            pols: POLS,
            c0: &[&[Stop], &[Kill], &[Tell(P)], &[Tell(E), Tell(O)], &[Tell(O), Drop]],
            c1: &[&[], &[Stop], &[Kill], &[Tell(Y), Tell(O)]],
            ..Default::default()
        }),
        universe("P22", "universe-errors", 2, 3, "every combination of start-up and stop hook outcomes with every way to stop", Spec {
            mbs: MB1U,
            starts: START_ALL,
            stops: &[(Outcome::Ok, 0), (Outcome::Err(8), 0), (Outcome::Panic, 0)],
            pols: POLS,
            c0: &[&[Tell(O)], &[Tell(P), Tell(O)], &[Stop], &[Kill], &[Ask(O)]],
            ..Default::default()
        }),
    ]
    .into_iter()
    .chain(std::iter::empty::<Scn>().filter(|_| START_OK.is_empty()))
    .collect()
}
