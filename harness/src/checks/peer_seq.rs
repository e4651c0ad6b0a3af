//! Checks that explore operation sequences on one peer.
use mc::report::Check;
use mc::seq::Macro::{self, *};
use mc::seq::{run, run_macros, Family, Op, Op::*};

fn family(c: &mut Check, name: &str, depth: (usize, usize), prologue: &[Op], ops: &[Op]) {
	let f = Family::new(c.bound(depth.0, depth.1), prologue, ops);
	c.run(name, |ctx| run(ctx, &f));
}

/// Few steps with many repetitions each.
fn many(c: &mut Check, name: &str, prologue: &[Op], macros: &[Macro]) {
	let depth = c.bound(3, 4);
	c.run(&format!("{name}, up to 300 times"), |ctx| run_macros(ctx, prologue, macros, depth, &[1, 40, 300]));
	let depth = c.bound(2, 3);
	c.run(&format!("{name}, 1100 times"), |ctx| run_macros(ctx, prologue, macros, depth, &[1100]));
}

/// A peer with an open sent request 0 and an open received request 0 (ID 0, like the sent request).
const BOTH: [Op; 3] = [SendReq, InReq(0), Recv];

pub fn p07(c: &mut Check) {
	family(c, "two sent requests", (6, 7), &[SendReq, SendReq], &[InRespUpd(0), InRespUpd(1), InResp(0), InResp(1), SRecvU(0), SRecvU(1), SRecvR(0), SRecvR(1), SendReq]);
	family(c, "two received requests", (6, 7), &[], &[InReq(0), InReq(1), InReqUpd(0), InReqUpd(1), InStream, Recv, RRecvU(0), RRecvU(1), RResp(0)]);
	family(c, "both directions with equal IDs", (6, 7), &[SendReq, SendReq], &[InReq(0), InReq(1), InResp(0), InResp(1), InRespUpd(0), InRespUpd(1), InReqUpd(0), InReqUpd(1), InStream, SendReq, Recv]);
	family(c, "extreme IDs", (6, 7), &[Jump(u32::MAX), SendReq], &[InReq(u32::MAX), InReq(0), InReq(0x8000_0000), InReqUpd(u32::MAX), InReqUpd(0x8000_0000), InRespUpd(0), InRespUpd(1), InResp(0), SendReq, Recv]);
	similar_ids(c, (4, 5));
	many(c, "many updates and requests", &[SendReq], &[Rep(SendReq), NewRequests, Rep(Recv), Rep(InStream), Rep(InRespUpd(0)), EachSent(InRespUpd), EachReceivedUpdate, Rep(SRecvU(0)), EachReceived(RRecvU), EachSent(InResp)]);
}

pub fn p08(c: &mut Check) {
	family(c, "wrap around with open requests", (6, 8), &[SendReq, SendReq, Jump(u32::MAX - 1)], &[SendReq, InResp(0), InResp(1), InResp(2), InResp(3), SDrop(0), SDrop(2), InRespUpd(0)]);
	family(c, "jumps onto open requests", (6, 8), &[], &[SendReq, Jump(0), Jump(1), Jump(u32::MAX), InResp(0), InResp(1), SDrop(0), PlanRefuse]);
	family(c, "unused IDs are reused", (6, 7), &[Jump(u32::MAX)], &[SendReq, Jump(u32::MAX), PlanRefuse, InResp(0), InResp(1), SWh(0), SDrop(0), SWhUpd(0), InRespUpd(1)]);
	c.run("long runs of open requests", |ctx| mc::seq::long_runs(ctx));
}

pub fn p09(c: &mut Check) {
	family(c, "received request", (6, 7), &[InReq(3), Recv, RWh(0)], &[RUpd(0), RResp(0), RErr(0), RWhUpd(0), RWhResp(0), InReqUpd(3), InReq(3), Recv, RDrop(0), RUpd(1), RWh(0)]);
	family(c, "sent request", (6, 7), &[SendReq, SWh(0)], &[SUpd(0), SWhUpd(0), InResp(0), InRespUpd(0), Jump(0), SendReq, SDrop(0), SRecvR(0), SUpd(1)]);
	family(c, "dropped handles", (6, 7), &[SendReq, SWh(0), InReq(0), Recv, RWh(0)], &[SDrop(0), RDrop(0), SWhUpd(0), RWhUpd(0), RWhResp(0), InResp(0), InRespUpd(0), InReqUpd(0), InReq(0), Recv, Jump(0), SendReq]);
	many(c, "many finished requests", &[InReq(3), Recv, SendReq], &[NewRequests, Rep(Recv), EachReceived(RWh), EachReceived(RResp), EachReceived(RWhUpd), Rep(RUpd(0)), EachReceivedUpdate, EachSent(SUpd), Rep(SendReq), EachSent(InResp)]);
}

/// An open request in each direction, and messages with an ID that differs from theirs in one bit (any of the 32).
fn similar_ids(c: &mut Check, depth: (usize, usize)) {
	let depth = c.bound(depth.0, depth.1);
	c.run("IDs that differ in one bit", |ctx| {
		let id = [0, 0x12345678, u32::MAX][ctx.choose(3)];
		let other = id ^ (1 << ctx.choose(32));
		let f = Family::new(
			depth,
			&[Jump(id), SendReq, InReq(id), Recv],
			&[InRespId(other), InRespUpdId(other), InReqUpd(other), InReq(other), Recv, RResp(0), InResp(0), InRespUpd(0), InReqUpd(id), Jump(other), SendReq],
		);
		run(ctx, &f)
	});
}

pub fn p10(c: &mut Check) {
	family(c, "sends and write outcomes", (6, 7), &BOTH, &[SendReq, SendStream, SUpd(0), RUpd(0), RResp(0), RErr(0), PlanRefuse, PlanBreak, InResp(0), SUpd(1), CloseWrite]);
	family(c, "sends through split and cloned handles", (6, 7), &[SendReq, SWh(0), InReq(0), Recv, RWh(0)], &[CloneWrite, DropWrite, DropRead, SendReq, SendStream, SWhUpd(0), SWhDrop(0), SDrop(0), RWhUpd(0), RWhResp(0), RDrop(0), UseCloser]);
	many(c, "many sends", &BOTH, &[Rep(SendReq), Rep(SendStream), Rep(SUpd(0)), Rep(RUpd(0)), Rep(RResp(0)), Rep(PlanRefuse), Rep(CloneWrite), Alternate(InReq(7), Recv), Alternate(PlanRefuse, SendStream), Rep(CloseWrite)]);
}

pub fn p11(c: &mut Check) {
	family(c, "ways to end a connection", (6, 7), &[SendReq, InReq(0), Recv, MakeCloser], &[InEof, InBroken, CloseRead, CloseWrite, UseCloser, PlanBreak, SUpd(0), InRespUpd(0), InResp(0), InReqUpd(0), InStream, InReq(1)]);
	family(c, "receiving before and after the end", (6, 7), &[SendReq, InRespUpd(0), InReq(0), Recv, InReqUpd(0), InStream], &[InResp(0), InEof, CloseWrite, Recv, SRecvU(0), SRecvR(0), RRecvU(0), RUpd(0), RResp(0), SUpd(0), SendReq, SendStream]);
	many(c, "many messages before the end", &BOTH, &[Rep(SendReq), NewRequests, Rep(Recv), Rep(InStream), Rep(InRespUpd(0)), Rep(InReqUpd(0)), EachSent(InResp), Rep(InEof), Rep(CloseWrite), Rep(InRefused)]);
}

pub fn p12(c: &mut Check) {
	family(c, "handles", (6, 7), &[SendReq, InReq(0), Recv], &[DropRead, DropWrite, CloneWrite, MakeCloser, UseCloser, DropCloser, SendStream, SDrop(0), RDrop(0), SWh(0)]);
	family(c, "use of the remaining handles", (6, 7), &[SendReq, InReq(0), Recv], &[DropRead, DropWrite, CloneWrite, DropWhole, SendReq, SendStream, InStream, InReq(1), Recv, InResp(0), SUpd(0), RResp(0)]);
	family(c, "closing", (6, 7), &[SendReq, MakeCloser], &[DropRead, DropWrite, CloneWrite, CloseRead, CloseWrite, UseCloser, MakeCloser, DropCloser, SendStream, InStream, Recv]);
	many(c, "many handles", &BOTH, &[Rep(CloneWrite), Rep(DropWrite), Rep(MakeCloser), Rep(DropCloser), Rep(SWh(0)), Rep(SWhDrop(0)), Rep(RWh(0)), Rep(DropRead), Rep(SendReq), EachSent(SDrop), Rep(SendStream)]);
}

pub fn p13(c: &mut Check) {
	family(c, "write handle only", (6, 7), &[SendReq, InReq(0), Recv, DropRead], &[InReq(0), InReq(1), InReq(2), InStream, InRespUpd(0), InResp(0), SRecvR(0), RUpd(0), RResp(0), SendReq, InReqUpd(1)]);
	family(c, "read handle dropped in between", (6, 7), &[], &[InReq(1), InReq(2), DropRead, CloneWrite, DropWrite, InStream, Recv, SendStream, RResp(0), InReqUpd(1)]);
	family(c, "refused error responses", (6, 7), &[SendReq, DropRead], &[PlanRefuse, PlanBreak, InReq(1), InReq(2), InStream, SendStream, SUpd(0), InRespUnknown, InRefused]);
	many(c, "many requests that nobody receives", &[SendReq, InReq(0), Recv, DropRead], &[NewRequests, Rep(InReq(1)), Rep(InStream), Rep(InRespUpd(0)), Rep(SRecvU(0)), Rep(RUpd(0)), Rep(SendReq), EachSent(InResp), Rep(InRespUnknown), Rep(InRefused)]);
}

/// The receives are cancelled after a number of polls and then tried again.
fn family_cancel(c: &mut Check, name: &str, depth: (usize, usize), prologue: &[Op], ops: &[Op]) {
	let mut f = Family::new(c.bound(depth.0, depth.1), prologue, ops);
	f.cancel = 3;
	c.run(name, |ctx| run(ctx, &f));
}

pub fn p15(c: &mut Check) {
	family_cancel(c, "cancelled receives of messages", (6, 7), &[], &[Recv, InStream, InReq(0), InReq(1), InReqUpd(0), InRespUnknown, RRecvU(0)]);
	family_cancel(c, "cancelled receives on requests", (6, 7), &[SendReq, InReq(0), Recv], &[SRecvU(0), SRecvR(0), RRecvU(0), InRespUpd(0), InResp(0), InReqUpd(0), RResp(0)]);
}

pub fn p16(c: &mut Check) {
	family(c, "sent request", (8, 10), &[SendReq], &[InRespUpd(0), InResp(0), SRecvU(0), SRecvR(0)]);
	family(c, "received request", (7, 8), &[InReq(5), Recv], &[InReqUpd(5), RRecvU(0), RUpd(0), RResp(0), RErr(0)]);
	family(c, "with the end of the connection", (6, 7), &[SendReq, InReq(5), Recv, InRespUpd(0), InReqUpd(5)], &[InRespUpd(0), InResp(0), InReqUpd(5), SRecvU(0), SRecvR(0), RRecvU(0), InEof, DropWhole]);
	many(c, "many updates", &BOTH, &[Rep(InRespUpd(0)), Rep(InReqUpd(0)), Rep(SRecvU(0)), Rep(SRecvR(0)), Rep(RRecvU(0)), Rep(InResp(0)), Rep(RResp(0)), Alternate(InRespUpd(0), SRecvR(0)), Alternate(SRecvR(0), SRecvU(0)), Rep(RUpd(0))]);
}

pub fn p20(c: &mut Check) {
	family(c, "refused messages", (6, 7), &[SendReq, InReq(4), Recv, RWh(0)], &[PlanRefuse, RResp(0), RErr(0), RUpd(0), RWhResp(0), SUpd(0), SendReq, SendStream, InReqUpd(4), InRespUpd(0), InReq(4)]);
	family(c, "refusal and handles", (6, 7), &[SendReq, InReq(4), Recv, RWh(0)], &[PlanRefuse, RResp(0), RDrop(0), RWhResp(0), InReqUpd(4), RRecvU(0), InReq(4), Recv, Jump(1), SendReq, InResp(0)]);
	family(c, "messages for a refused request", (6, 7), &[SendReq, Jump(5)], &[PlanRefuse, SendReq, InRespId(5), InRespUpdId(5), InRespId(6), Jump(5), Recv, InResp(1), SRecvR(1), InRespUpd(1)]);
	c.run("many refused requests", |ctx| mc::seq::long_refusals(ctx));
	many(c, "many refused messages", &BOTH, &[Alternate(PlanRefuse, RResp(0)), Alternate(PlanRefuse, RUpd(0)), Alternate(PlanRefuse, SUpd(0)), Alternate(PlanRefuse, SendReq), Alternate(PlanRefuse, SendStream), Rep(SendReq), Rep(RUpd(0)), EachSent(InRespUpd), Rep(InReqUpd(0)), Rep(RErr(0))]);
}

pub fn p21(c: &mut Check) {
	family(c, "messages that fit no request", (6, 7), &[SendReq, InReq(9), Recv], &[InRespUnknown, InRespUpdUnknown, InReqUpdUnknown, InRespId(9), InRespUpdId(9), InReqUpd(0), InReq(9), InResp(0), InRefused, Recv, RResp(0)]);
	family(c, "finished requests", (6, 7), &[SendReq, InReq(9), Recv], &[InResp(0), InRespUpd(0), RResp(0), InReqUpd(9), InReq(9), Recv, RRecvU(0), SRecvU(0), SDrop(0), RDrop(0)]);
	family(c, "dropped handles", (6, 7), &[SendReq, SWh(0), InReq(9), Recv, RWh(0)], &[SDrop(0), RDrop(0), InRespUpd(0), InReqUpd(9), InResp(0), RWhResp(0), RWhUpd(0), SWhUpd(0), InReq(9), Recv, Jump(0), SendReq]);
	similar_ids(c, (4, 5));
	many(c, "many messages that fit no request", &BOTH, &[Rep(InRespUnknown), Rep(InReqUpdUnknown), Rep(InRespUpdUnknown), Rep(InReq(0)), Rep(InRefused), Rep(Recv), NewRequests, EachReceived(RResp), EachReceivedUpdate, Rep(InResp(0)), Rep(InRespUpd(0))]);
}
