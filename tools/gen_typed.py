#!/usr/bin/env python3
"""Writes /verif/typed/src/gen.rs: interfaces for P18 and the glue that lets the explorer use them."""
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MIN, MAX = -2**31, 2**31 - 1
RT = {"B": "B", "C": "C", "Unit": "()"}

def camel(s):
    return "".join(w[:1].upper() + w[1:] for w in s.split("_"))

def svc(name, id, req="B", resp="B", up=(), down=()):
    return dict(name=name, id=id, req=req, resp=resp, up=list(up), down=list(down))

ifaces = []
def iface(services=(), streams=()):
    ifaces.append(dict(services=list(services), streams=list(streams)))

# One service of every shape. The updates of both kinds and the streams share IDs with each other and the service.
n = 0
for r in range(3):
    for u in range(3):
        sid = [7, -3, 300][n % 3]
        ups = [("go", sid, "B"), ("stop_it", 21, ["B", "Unit"][n % 2])][:r]
        downs = [("stop_it", sid, ["B", "C"][n % 2]), ("go", 21, "B")][:u]
        streams = [("tick", 21, "B"), ("tock", sid, ["Unit", "B"][n % 2])][:n % 3]
        iface([svc("alpha", sid, ["B", "Unit", "B", "C"][n % 4], ["B", "B", "Unit"][n % 3], ups, downs)], streams)
        n += 1
# Extreme IDs.
iface([svc("lowest", MIN, up=[("u", MAX, "B"), ("v", MIN, "B")], down=[("u", MIN, "B"), ("v", MAX, "B")]), svc("highest", MAX)], [("s", MAX, "B"), ("t", MIN, "B")])
iface([svc("zero", 0, down=[("z", 0, "B")]), svc("minus_two", -2, up=[("z", 0, "B")])], [("zz", 0, "B"), ("minus", -2, "B")])
# IDs that are equal in their low or high parts.
iface([svc("a", 1), svc("b", 257), svc("c", 65537)], [("a", 0x01000001, "B"), ("b", 1, "B"), ("c", -2147483647, "B")])
iface([svc("d", 5, up=[("a", 5, "B"), ("b", 261, "B"), ("c", -5, "B")], down=[("a", -5, "B"), ("b", 5, "B"), ("c", 261, "B")])])
# Several services with different shapes, services and streams with crossed IDs.
iface([svc("one", 1, "B", "B"), svc("two", 2, "B", "B", [("x", 2, "B")]), svc("three", 3, "B", "B", (), [("x", 2, "B"), ("y", 1, "B")])],
      [("one", 3, "B"), ("two", 2, "B"), ("three", 1, "B")])
iface([svc("one", 3, "Unit", "Unit"), svc("two", 1, "C", "B", [("x", 1, "C"), ("y", 3, "B")], [("y", 1, "B"), ("x", 3, "C")]), svc("three", 2, "B", "C")],
      [("x", 1, "C"), ("y", 2, "Unit")])
# Services that differ only in their updates.
iface([svc("first", 11, up=[("p", 1, "B"), ("q", 2, "B")], down=[("p", 3, "B"), ("q", 4, "B")]),
       svc("second", 12, up=[("p", 2, "B"), ("q", 1, "B")], down=[("p", 4, "B"), ("q", 3, "B")])])
# Negative IDs without updates, next to similar positive ones.
iface([svc("down_one", -5, "B", "B"), svc("up_one", 5, "B", "B"), svc("bottom", MIN, "B", "C"), svc("below", -257, "Unit", "Unit")], [("down_one", -5, "B"), ("below", 255, "B")])
iface([svc("bare", -1000, "C", "B")], [("neg", -7, "B"), ("pos", 7, "B")])
iface([svc("far", -65537, "B", "B", [("g", -2, "B"), ("h", -256, "C")], [("g", -256, "B"), ("h", -2, "C")])])
# Names that are used inside of the generated code.
iface([svc("request", 1, up=[("message", 1, "B"), ("body", 2, "B")], down=[("update", 1, "B"), ("response", 2, "B")]), svc("peer", 2), svc("error", 3), svc("f", 4)],
      [("body", 1, "B"), ("encoded", 2, "B"), ("message", 3, "B")])
# Streams only, services only, units only.
iface([], [("only", 1, "B")])
iface([], [("first_one", 1, "B"), ("second_one", 2, "C"), ("third_one", -1000, "Unit")])
iface([svc("ping", 0, "Unit", "Unit")])
iface([svc("units", 9, "Unit", "Unit", [("u", 9, "Unit"), ("v", 8, "Unit")], [("u", 8, "Unit"), ("v", 9, "Unit")])], [("u", 9, "Unit")])

out = []
w = out.append
w("// Written by tools/gen_typed.py.")
w("use crate::fmt::{Fmt, Ty, Value, B, C};")
w("use crate::iface::*;")
w("use fizyr_rpc::format::Format as _;")
w("use fizyr_rpc::{Error, Message, PeerHandle, PeerReadHandle, PeerWriteHandle, RecvMessageError, StreamBody};")
w("")

def entries(es):
    return "&[" + ", ".join(f'Entry {{ name: "{n}", id: {i}, ty: Ty::{t} }}' for n, i, t in es) + "]"

def arg(t, var="v"):
    return "" if t == "Unit" else f"&{RT[t]}::make(&{var})"

for k, f in enumerate(ifaces):
    m = f"i{k}"
    w(f"pub mod {m} {{")
    w("\t#[allow(unused_imports)]\n\tuse crate::fmt::{B, C};")
    w(f"\tfizyr_rpc::interface! {{\n\t\tpub interface I{k} {{")
    for s in f["services"]:
        body = "".join(f"\n\t\t\t\trequest_update {i} {n}: {RT[t]}," for n, i, t in s["up"]) + "".join(f"\n\t\t\t\tresponse_update {i} {n}: {RT[t]}," for n, i, t in s["down"])
        w(f"\t\t\tservice {s['id']} {s['name']}: {RT[s['req']]} -> {RT[s['resp']]}" + (f" {{{body}\n\t\t\t}}," if body else ","))
    for n, i, t in f["streams"]:
        w(f"\t\t\tstream {i} {n}: {RT[t]},")
    w("\t\t}\n\t}\n}")
    w(f"static SPEC_{k}: Spec = Spec {{\n\tname: \"I{k}\",\n\tservices: &[")
    for s in f["services"]:
        w(f"\t\tServiceSpec {{ name: \"{s['name']}\", id: {s['id']}, req: Ty::{s['req']}, resp: Ty::{s['resp']}, up: {entries(s['up'])}, down: {entries(s['down'])} }},")
    w(f"\t],\n\tstreams: {entries(f['streams'])},\n}};")
    # Message enums.
    enums = []
    if f["streams"]: enums.append(("Kind::Stream", f"{m}::StreamMessage", f["streams"], f"stream_{k}"))
    for j, s in enumerate(f["services"]):
        if s["up"]: enums.append((f"Kind::Up({j})", f"{m}::{s['name']}::RequestUpdate", s["up"], f"up_{k}_{j}"))
        if s["down"]: enums.append((f"Kind::Down({j})", f"{m}::{s['name']}::ResponseUpdate", s["down"], f"down_{k}_{j}"))
    for kind, ty, es, fn in enums:
        w(f"fn open_{fn}(e: {ty}) -> (usize, Val) {{")
        w("\tlet (index, value) = match &e {")
        for x, (n, i, t) in enumerate(es): w(f"\t\t{ty}::{camel(n)}(v) => ({x}, v.get()),")
        w("\t};")
        for x, (n, i, t) in enumerate(es):
            w(f"\tif e.is_{n}() != (index == {x}) || e.as_{n}().map(|v| v.get()) != (index == {x}).then(|| value.clone()) {{\n\t\treturn (usize::MAX, value);\n\t}}")
        w("\tlet again = match index {")
        for x, (n, i, t) in enumerate(es): w(f"\t\t{x} => e.into_{n}().ok().map(|v| v.get()),")
        w("\t\t_ => None,\n\t};")
        w("\tif again.as_ref() != Some(&value) {\n\t\treturn (usize::MAX, value);\n\t}\n\t(index, value)\n}")
    w(f"struct Iface{k};\nimpl Iface for Iface{k} {{")
    w(f"\tfn spec(&self) -> &'static Spec {{\n\t\t&SPEC_{k}\n\t}}")
    w(f"\tfn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {{\n\t\tBox::new(Client{k}({m}::Client::new(peer)))\n\t}}")
    w(f"\tfn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {{\n\t\tBox::new(Client{k}(peer.into()))\n\t}}")
    w(f"\tfn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {{\n\t\tBox::new(Server{k}(peer.into()))\n\t}}")
    w(f"\tfn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {{\n\t\tBox::new(Server{k}(peer.into()))\n\t}}")
    w("\tfn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {\n\t\tmatch kind {")
    for kind, ty, es, fn in enums: w(f"\t\t\t{kind} => Fmt::decode_message::<{ty}>(message).map(open_{fn}),")
    w('\t\t\t_ => unreachable!("{message:?}"),\n\t\t}\n\t}')
    w("\tfn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {\n\t\tmatch (kind, variant) {")
    for kind, ty, es, fn in enums:
        for x, (n, i, t) in enumerate(es): w(f"\t\t\t({kind}, {x}) => Fmt::decode_message::<{ty}>(message)?.into_{n}().map(|v| v.get()),")
    w('\t\t\t_ => unreachable!("{message:?}"),\n\t\t}\n\t}')
    w("\tfn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {\n\t\tlet r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {")
    for kind, ty, es, fn in enums:
        for x, (n, i, t) in enumerate(es): w(f"\t\t\t({kind}, {x}) => Fmt::encode_message(&{ty}::{camel(n)}(Value::make(value))),")
    w('\t\t\t_ => unreachable!("{value:?}"),\n\t\t};\n\t\tr.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())\n\t}\n}')
    # Client.
    w(f"struct Client{k}({m}::Client<Fmt>);\nimpl Client for Client{k} {{")
    w("\tfn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {\n\t\tlet _ = &v;\n\t\tlet c = self.0.clone();\n\t\tmatch service {")
    for j, s in enumerate(f["services"]):
        conv = f"Called::Handle(Box::new(Sent{k}_{j}(r)))" if s["up"] or s["down"] else "Called::Response(r.get())"
        w(f"\t\t\t{j} => Box::pin(async move {{ c.{s['name']}({arg(s['req'])}).await.map(|r| {conv}) }}),")
    w('\t\t\t_ => unreachable!("{c:?}"),\n\t\t}\n\t}')
    w("\tfn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {\n\t\tlet _ = &v;\n\t\tlet c = self.0.clone();\n\t\tmatch stream {")
    for x, (n, i, t) in enumerate(f["streams"]): w(f"\t\t\t{x} => Box::pin(async move {{ c.send_{n}({arg(t)}).await }}),")
    w('\t\t\t_ => unreachable!("{c:?}"),\n\t\t}\n\t}')
    w("\tfn close(self: Box<Self>) {\n\t\tself.0.close()\n\t}\n}")
    # Server.
    w(f"struct Server{k}({m}::Server<Fmt>);\nimpl Server for Server{k} {{")
    w("\tfn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {\n\t\tBox::pin(async move {\n\t\t\tlet m = self.0.recv_message().await?;\n\t\t\tOk(match m {")
    for j, s in enumerate(f["services"]):
        w(f"\t\t\t\t{m}::ReceivedMessage::Request({m}::ReceivedRequestHandle::{camel(s['name'])}(h, b)) => Got::Request({j}, Box::new(Received{k}_{j}(h)), b.get()),")
    if f["streams"]:
        w(f"\t\t\t\t{m}::ReceivedMessage::Stream(m) => {{\n\t\t\t\t\tlet (j, v) = open_stream_{k}(m);\n\t\t\t\t\tGot::Stream(j, v)\n\t\t\t\t}},")
    w("\t\t\t})\n\t\t})\n\t}\n}")
    # Handles.
    def send_updates(es):
        w("\tfn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {\n\t\tlet _ = &v;\n\t\tmatch update {")
        for x, (n, i, t) in enumerate(es): w(f"\t\t\t{x} => Box::pin(async move {{ self.0.send_{n}_update({arg(t)}).await }}),")
        w("\t\t\t_ => unreachable!(),\n\t\t}\n\t}")
    def recv_update(es, fn):
        w("\tfn recv_update(&mut self) -> Fut<'_, Update> {")
        if es: w(f"\t\tBox::pin(async move {{ Some(self.0.recv_update().await?.map(open_{fn})) }})")
        else: w("\t\tunreachable!()")
        w("\t}")
    ids = "\tfn ids(&self) -> (u32, i32) {\n\t\t(self.0.request_id(), self.0.service_id())\n\t}"
    for j, s in enumerate(f["services"]):
        sm = f"{m}::{s['name']}"
        if s["up"] or s["down"]:
            for name, ty in ((f"Sent{k}_{j}", "SentRequestHandle"), (f"SentW{k}_{j}", "SentRequestWriteHandle")):
                w(f"struct {name}({sm}::{ty}<Fmt>);\nimpl SentOut for {name} {{\n{ids}")
                send_updates(s["up"]); w("}")
            w(f"impl Sent for Sent{k}_{j} {{\n\tfn write(&self) -> Box<dyn SentOut> {{\n\t\tBox::new(SentW{k}_{j}(self.0.write_handle().clone()))\n\t}}")
            recv_update(s["down"], f"down_{k}_{j}")
            w("\tfn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {\n\t\tBox::pin(async move { self.0.recv_response().await.map(|v| v.get()) })\n\t}\n}")
        for name, ty in ((f"Received{k}_{j}", "ReceivedRequestHandle"), (f"ReceivedW{k}_{j}", "ReceivedRequestWriteHandle")):
            w(f"struct {name}({sm}::{ty}<Fmt>);\nimpl ReceivedOut for {name} {{\n{ids}")
            send_updates(s["down"])
            w(f"\tfn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {{\n\t\tBox::pin(async move {{ self.0.send_response(&<{RT[s['resp']]}>::make(&v)).await }})\n\t}}")
            w("\tfn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {\n\t\tBox::pin(async move { self.0.send_error_response(text).await })\n\t}\n}")
        w(f"impl Received for Received{k}_{j} {{\n\tfn write(&self) -> Box<dyn ReceivedOut> {{\n\t\tBox::new(ReceivedW{k}_{j}(self.0.write_handle().clone()))\n\t}}")
        recv_update(s["up"], f"up_{k}_{j}")
        w("}")
    w("")
w("pub static ALL: &[&dyn Iface] = &[" + ", ".join(f"&Iface{k}" for k in range(len(ifaces))) + "];")
with open(os.path.join(ROOT, "typed", "src", "gen.rs"), "w") as fh:
    fh.write("\n".join(out) + "\n")
print(len(ifaces), "interfaces")
