#!/usr/bin/env python3
"""P19: enumerates interface definitions, compiles them with the real macro, and compares what the compiler and the
introspection say with the definition. usage: p19.py quick|thorough|replay FILE"""
import concurrent.futures, itertools, json, os, shutil, subprocess, sys, time

START = time.time()
VERIF = os.environ["VERIF_DIR"]
TARGET = os.environ["CARGO_TARGET_DIR"]
MIN, MAX = -2**31, 2**31 - 1
SCRATCH = os.path.join(TARGET, f"p19-{os.getpid()}")

# ---------------------------------------------------------------- definitions

class Item:
    """A service, an update or a stream, as defined. `id` is the literal in the source."""
    def __init__(self, kind, name, id, types, docs=(), hidden=False, updates=None, attrs=None):
        self.kind, self.name, self.id, self.types = kind, name, str(id), types
        self.docs, self.hidden, self.updates = list(docs), hidden, updates
        self.attrs = attrs

def number(literal):
    s = literal.replace("_", "").replace("i32", "")
    sign = -1 if s.startswith("-") else 1
    s = s.lstrip("-")
    return sign * (int(s, 0) if s[:2] in ("0x", "0b", "0o") else int(s))

class Def:
    def __init__(self, items, name="Example", vis="pub", docs=(), hidden=False, attrs=None, group="", ok=True, scope="", real=None):
        self.items, self.name, self.vis, self.docs, self.hidden, self.attrs = list(items), name, vis, list(docs), hidden, attrs
        self.group, self.ok = group, ok
        # What else is in the module of the interface, and what the types that are used are from everywhere (@ is the module).
        self.scope, self.real = scope, real or {}
        self.index = 0

    def source(self):
        lines = []
        self.at, self.bad_lines = {}, set()
        def attributes(x, indent):
            # `attrs` is the order in which documentation lines (d) and the hidden attribute (h) are written.
            order = x.attrs if x.attrs is not None else ("h" if x.hidden else "") + "d" * len(x.docs)
            docs = list(x.docs)
            for c in order:
                if c == "h": lines.append(indent + "#[hidden]")
                elif c == "?":
                    self.bad_lines.add(len(lines))
                    lines.append(indent + x.strange)
                else: lines.append(indent + docs.pop(0)[0])
        attributes(self, "\t")
        lines.append(f"\t{self.vis}{' ' if self.vis else ''}interface {self.name} {{")
        for i in self.items:
            attributes(i, "\t\t")
            self.at[id(i)] = len(lines)
            if i.kind == "stream":
                lines.append(f"\t\tstream {i.id} {i.name}: {i.types[0]},")
            elif i.updates is None:
                lines.append(f"\t\tservice {i.id} {i.name}: {i.types[0]} -> {i.types[1]},")
            else:
                lines.append(f"\t\tservice {i.id} {i.name}: {i.types[0]} -> {i.types[1]} {{")
                for u in i.updates:
                    attributes(u, "\t\t\t")
                    self.at[id(u)] = len(lines)
                    lines.append(f"\t\t\t{u.kind} {u.id} {u.name}: {u.types[0]},")
                lines.append("\t\t},")
        lines.append("\t}")
        return "\n".join(lines)

    def expected(self, type_names):
        """What the introspection has to print."""
        def doc(docs):
            values = [v for _, v in docs]
            leading = [len(v) - len(v.lstrip(" ")) for v in values if v.strip(" ")]
            cut = min(leading) if leading else 0
            return "".join((v[cut:] if v.strip(" ") else "") + "\n" for v in values)
        def common(x): return [x.name.removeprefix("r#"), doc(x.docs), x.hidden, number(x.id)] + [type_names[self.type(t)] for t in x.types]
        services = [common(i) + [[common(u) for u in i.updates or [] if u.kind == k] for k in ("request_update", "response_update")] for i in self.items if i.kind == "service"]
        streams = [common(i) for i in self.items if i.kind == "stream"]
        return [self.name.removeprefix("r#"), doc(self.docs), self.hidden, services, streams]

    def blame(self):
        """The lines of the source that make the definition invalid, counted from zero."""
        self.source()
        out, scopes = set(self.bad_lines), [self.items] + [i.updates or [] for i in self.items]
        for scope in scopes:
            for a in scope:
                if not MIN <= number(a.id) <= MAX or any(b is not a and b.kind == a.kind and (b.name == a.name or number(b.id) == number(a.id)) for b in scope): out.add(self.at[id(a)])
        return out

    def type(self, t): return self.real.get(t, t).replace("@", f"crate::m{self.index}")

    def types(self):
        out = set()
        for i in self.items:
            out.update(map(self.type, i.types))
            for u in i.updates or []: out.update(map(self.type, u.types))
        return out

    def api(self):
        """A program that uses everything that is generated, with the types that were defined."""
        fmt, error, out = "crate::Fmt", "::fizyr_rpc::Error", []
        def result(t): return f"::core::result::Result<{t}, {error}>"
        def function(arguments, body): out.append(f"fn p19_{len(out)}({', '.join(arguments)}) {{ {body} }}")
        def call(this, name, types, output, always=False):
            args = [(f"x{k}", t) for k, t in enumerate(types) if t != "()" or always]
            function([f"this: {this}"] + [f"{x}: &{t}" for x, t in args], f"crate::output::<{output}>(this.{name}({', '.join(x for x, _ in args)}));")
        def variants(enum, entries):
            arms = [f"{enum}::{camel(e.name)}(x) => {{ let x: {self.type(e.types[0])} = x; }}" for e in entries]
            function([f"this: {enum}"], "match this { " + " ".join(arms) + " }")
        def updates(this, which, module, ups, send):
            mine = [u for u in ups if u.kind == which]
            if send:
                for u in mine: call(this, f"send_{u.name.removeprefix('r#')}_update", [self.type(u.types[0])], result("()"))
            elif mine: call(this, "recv_update", [], f"::core::option::Option<::core::result::Result<{module}::{'RequestUpdate' if which == UPDATES[0] else 'ResponseUpdate'}, ::fizyr_rpc::ParseUpdateError<::fizyr_rpc::StreamBody>>>")
        services, streams = ([i for i in self.items if i.kind == k] for k in ("service", "stream"))
        for i in services:
            m, (q, r), ups = i.name, map(self.type, i.types), i.updates or []
            call(f"&Client<{fmt}>", m, [q], result(f"{m}::SentRequestHandle<{fmt}>" if ups else r))
            if ups:
                call(f"&mut {m}::SentRequestHandle<{fmt}>", "recv_response", [], result(r))
                updates(f"&mut {m}::SentRequestHandle<{fmt}>", UPDATES[1], m, ups, False)
                for h in ("SentRequestHandle", "SentRequestWriteHandle"): updates(f"&{m}::{h}<{fmt}>", UPDATES[0], m, ups, True)
            updates(f"&mut {m}::ReceivedRequestHandle<{fmt}>", UPDATES[0], m, ups, False)
            for h in ("ReceivedRequestHandle", "ReceivedRequestWriteHandle"):
                call(f"&{m}::{h}<{fmt}>", "send_response", [r], result("()"), True)
                updates(f"&{m}::{h}<{fmt}>", UPDATES[1], m, ups, True)
            for u, name in ((UPDATES[0], "RequestUpdate"), (UPDATES[1], "ResponseUpdate")):
                mine = [x for x in ups if x.kind == u]
                if mine: variants(f"{m}::{name}", mine)
        for i in streams: call(f"&Client<{fmt}>", f"send_{i.name.removeprefix('r#')}", [self.type(i.types[0])], result("()"))
        if streams: variants("StreamMessage", streams)
        if services:
            arms = [f"ReceivedRequestHandle::{camel(i.name)}(x, y) => {{ let x: {i.name}::ReceivedRequestHandle<{fmt}> = x; let y: {self.type(i.types[0])} = y; }}" for i in services]
            function([f"this: ReceivedRequestHandle<{fmt}>"], "match this { " + " ".join(arms) + " }")
        arms = (["ReceivedMessage::Stream(x) => { let x: StreamMessage = x; }"] if streams else []) + ([f"ReceivedMessage::Request(x) => {{ let x: ReceivedRequestHandle<{fmt}> = x; }}"] if services else [])
        message = f"ReceivedMessage<{fmt}>" if services else "ReceivedMessage"
        function([f"this: {message}"], "match this { " + " ".join(arms) + " }")
        call(f"&mut Server<{fmt}>", "recv_message", [], f"::core::result::Result<{message}, ::fizyr_rpc::RecvMessageError<::fizyr_rpc::StreamBody>>")
        out.append(f"fn p19_format<F: Format>() {{}} fn p19_compatible() {{ p19_format::<{fmt}>() }}")
        return " ".join(out)

def camel(name):
    out, up = "", True
    for c in name.removeprefix("r#"):
        if c == "_": up = True
        else:
            out += c.upper() if up and c.isascii() else c
            up = False
    return out

PRELUDE = r'''
#![allow(warnings)]
#[derive(Debug)]
pub struct Custom<T>(pub T);
pub struct Fmt;
impl fizyr_rpc::format::Format for Fmt { type Body = fizyr_rpc::StreamBody; }
impl fizyr_rpc::introspection::IntrospectableFormat for Fmt { type TypeInfo = &'static str; }
impl<T> fizyr_rpc::introspection::FormatTypeInfo<T> for Fmt { fn type_info() -> &'static str { std::any::type_name::<T>() } }
impl<T> fizyr_rpc::format::EncodeBody<T> for Fmt { fn encode_body(_: &T) -> Result<fizyr_rpc::StreamBody, Box<dyn std::error::Error + Send>> { panic!() } }
impl<T> fizyr_rpc::format::DecodeBody<T> for Fmt { fn decode_body(_: fizyr_rpc::StreamBody) -> Result<T, Box<dyn std::error::Error + Send>> { panic!() } }
fn output<T>(_: impl std::future::Future<Output = T>) {}
#[derive(Debug)] pub struct Deep;
pub trait Has { type Other; }
impl Has for Deep { type Other = u8; }
pub const SIZE: usize = 7;
type Def = fizyr_rpc::introspection::InterfaceDefinition<&'static str>;
fn s(x: &str) -> String {
	let mut o = String::from("\"");
	for c in x.chars() { if c == '"' || c == '\\' || (c as u32) < 32 || (c as u32) > 126 { let mut b = [0; 2]; for u in c.encode_utf16(&mut b) { o += &format!("\\u{:04x}", u); } } else { o.push(c) } }
	o + "\""
}
fn update(u: &fizyr_rpc::introspection::UpdateDefinition<&'static str>) -> String { format!("[{},{},{},{},{}]", s(&u.name), s(&u.doc), u.hidden, u.service_id, s(u.body)) }
fn services(x: &[fizyr_rpc::introspection::ServiceDefinition<&'static str>]) -> String {
	x.iter().map(|x| format!("[{},{},{},{},{},{},[{}],[{}]]", s(&x.name), s(&x.doc), x.hidden, x.service_id, s(x.request_body), s(x.response_body),
		x.request_updates.iter().map(update).collect::<Vec<_>>().join(","), x.response_updates.iter().map(update).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")
}
fn streams(x: &[fizyr_rpc::introspection::StreamDefinition<&'static str>]) -> String {
	x.iter().map(|x| format!("[{},{},{},{},{}]", s(&x.name), s(&x.doc), x.hidden, x.service_id, s(x.body))).collect::<Vec<_>>().join(",")
}
fn dump(index: usize, name: &str, doc: &str, d: Def, sv: Vec<fizyr_rpc::introspection::ServiceDefinition<&'static str>>, st: Vec<fizyr_rpc::introspection::StreamDefinition<&'static str>>) {
	let copy = d.clone();
	assert!(format!("{:?}", copy) == format!("{:?}", d));
	println!("{{\"index\":{},\"name\":{},\"doc\":{},\"def\":[{},{},{},[{}],[{}]],\"services\":[{}],\"streams\":[{}]}}", index, s(name), s(doc), s(&d.name), s(&d.doc), d.hidden, services(&d.services), streams(&d.streams), services(&sv), streams(&st));
}
'''

# ---------------------------------------------------------------- what is enumerated

def line(text): return ("///" + text, text)
def attr(text, literal): return (f"#[doc = {literal}]", text)
DOCS = [
    [], [line("")], [line(" one line")], [line("no space")], [line(" two"), line(" lines")], [line(" blank"), line(""), line(" between")],
    [line("   indented"), line("     more"), line("   same")], [line("     first deeper"), line(" then less")], [line(""), line(" leading blank")],
    [line(" trailing blank"), line("     "), line("")], [line("   "), line("")], [line("  a"), line("b"), line("    c")], [line(" trailing spaces   ")],
    [line(' "quotes" {braces} {} %s \\n \\ # //')], [line(" \u00fcn\u00efc\u00f6d\u00e9 \U0001f600"), line("   \u4e2d")],
    [attr("attribute", '"attribute"'), line(" mixed")], [attr("  raw \"text\"", 'r#"  raw "text""#')], [attr("tab\tand \\ escapes", '"tab\\tand \\\\ escapes"')], [("/** block */", " block ")],
    [line("\ttab"), line("\t tab and space")], [line(" \tspace and tab"), line("  two spaces")], [line("\t"), line("  x")],
]
TYPES = ["u8", "()", "String", "Vec<u8>", "(u8, String)", "(u16,)", "[u8; 4]", "Option<Vec<(u8, [i64; 2])>>", "Custom<u8>", "crate::Custom<crate::Custom<()>>", "Option<Box<[u8]>>", "&'static str", "fn(u8) -> String"]
IDS = ["0", "1", "-2", "2147483647", "-2147483648", "0x10", "0x7fff_ffff", "0b101", "0o17", "1_000_000", "7i32", "-0x80", "256", "65536"]
NAMES = ["a", "b1", "foo", "foo_bar", "request", "response", "body", "message", "update", "error", "peer", "f", "e", "encoded", "service", "stream", "interface_", "hidden", "value", "context", "service_id", "vector", "request_body", "request_update", "handle", "some_rather_long_name_with_many_words"]
UPDATES = ("request_update", "response_update")
# Pairwise different IDs and names, whose upper or lower parts are equal.
SIMILAR_IDS = ["1", "-1", "257", "65537", "16777217", "-2147483647", "0", "-2147483648", "2147483647", "2"]
SIMILAR_NAMES = ["a", "ab", "abc", "ba", "a1", "a_c", "bab"]

def partitions(n):
    """All ways in which n things can be equal to each other, as restricted growth strings."""
    def go(prefix, k):
        if len(prefix) == n: yield tuple(prefix); return
        for x in range(k + 1): yield from go(prefix + [x], max(k, x + 1))
    return list(go([], 0))

def wrap(kind, entries, style):
    """A definition whose items of one kind are `entries` (literal, name), surrounded by others that use the same IDs and names."""
    if kind in ("service", "stream"):
        out = []
        for k, (i, n) in enumerate(entries):
            other = "stream" if kind == "service" else "service"
            t = ["u8", "u16"]
            out.append(Item(kind, n, i, t[:2 if kind == "service" else 1], updates=[Item("request_update", n, i, ["u8"])] if kind == "service" and style == 1 and k % 2 == 0 else None))
            # The same ID and name as another kind, once each.
            if style == 1 and all((i2, n2) == (i, n) or (number(i2) != number(i) and n2 != n) for i2, n2 in entries[:k]) and (i, n) not in entries[:k]:
                out.append(Item(other, n, i, t[:2 if other == "service" else 1]))
        return out
    ups = []
    for k, (i, n) in enumerate(entries):
        other = UPDATES[1] if kind == UPDATES[0] else UPDATES[0]
        ups.append(Item(kind, n, i, ["u8"]))
        if style == 1 and k == 0: ups.append(Item(other, n, i, ["u8"]))
    i, n = entries[0]
    s = Item("service", "svc", "40", ["u8", "u8"], updates=ups)
    return [Item("service", n if n != "svc" else "svd", i if number(i) != 40 else "41", ["u8", "u8"], updates=[Item(kind, n, i, ["u8"])]), s] if style == 1 else [s]

def definitions(thorough):
    # Item and update sequences.
    def updates(seq, base):
        out, count = [], {"request_update": 0, "response_update": 0}
        for k, u in enumerate(seq):
            # The n-th update of a kind: names and IDs are shared by the kinds.
            n = count[u]; count[u] += 1
            out.append(Item(u, f"u{n}" if u == "request_update" else f"u{4 - n}", base + n if u == "request_update" else base + 4 - n, [TYPES[(k + base) % 4]], docs=DOCS[(k + base) % len(DOCS)], hidden=(k + base) % 3 == 0))
        return out
    for n in range(0, 5 if thorough else 4):
        for seq in itertools.product(UPDATES, repeat=n):
            for before in (0, 1, 2):
                items = [Item("stream", "u0", 1, ["u8"])] * (before & 1) + [Item("service", "other", 99, ["u8", "u8"], updates=updates(seq[::-1], 3))] * (before >> 1)
                yield Def(items + [Item("service", "alpha", 1, ["u8", "u16"], updates=updates(seq, 1))], group="update sequences")
    shapes = ["none", "empty", "up", "down", "both", "stream"]
    for n in range(0, 5 if thorough else 4):
        for seq in itertools.product(shapes, repeat=n):
            items, ns, nt = [], 0, 0
            for k, x in enumerate(seq):
                if x == "stream":
                    nt += 1
                    items.append(Item("stream", f"x{4 - nt}", -nt, [TYPES[k % 5]], docs=DOCS[(2 * k + nt) % len(DOCS)], hidden=(k + n) % 2 == 0))
                else:
                    ns += 1
                    up = {"none": None, "empty": [], "up": updates(["request_update"], ns), "down": updates(["response_update"], ns), "both": updates(["response_update", "request_update"], ns)}[x]
                    items.append(Item("service", f"x{ns}", 5 - ns, [TYPES[k % 6], TYPES[(k + 1) % 7]], docs=DOCS[(k + 3 * ns) % len(DOCS)], hidden=k % 2 == 0, updates=up))
            yield Def(items, docs=DOCS[len(seq) + 3], hidden=n == 2, vis=["pub", "", "pub(crate)"][ns % 3], group="item sequences")
    # Documentation and hidden attributes of every kind of item.
    def single(kind, **kw):
        plain = dict(docs=[], hidden=False)
        a = {k: dict(plain) for k in ("interface", "service", "request_update", "response_update", "stream")}
        a[kind] = kw
        return Def([Item("service", "svc", 1, ["u8", "u16"], updates=[Item("request_update", "up", 1, ["u32"], **a["request_update"]), Item("response_update", "down", 1, ["u64"], **a["response_update"])], **a["service"]),
                    Item("stream", "st", 1, ["i8"], **a["stream"])], group="documentation and hidden", **a["interface"])
    for kind in ("interface", "service", "request_update", "response_update", "stream"):
        for docs in DOCS:
            for hidden in (False, True):
                orders = {"d" * len(docs)} if not hidden else {"d" * k + "h" + "d" * (len(docs) - k) for k in range(len(docs) + 1)}
                for order in sorted(orders): yield single(kind, docs=docs, hidden=hidden, attrs=order)
    for mask in range(32):
        k = iter(range(5))
        h = lambda: bool(mask >> next(k) & 1)
        ih, sh, uh, dh, th = h(), h(), h(), h(), h()
        yield Def([Item("stream", "st", 1, ["u8"], hidden=th, docs=[line(" stream")]), Item("service", "svc", 1, ["u8", "u8"], hidden=sh, docs=[line(" service")],
                  updates=[Item("response_update", "x", 1, ["u8"], hidden=dh, docs=[line(" response")]), Item("request_update", "x", 1, ["u8"], hidden=uh, docs=[line(" request")])])], hidden=ih, docs=[line(" interface")], group="documentation and hidden")
    # Attributes belong to one item, whatever the others are called and wherever they are.
    for mask in range(32):
        for same_name, same_id, up_first, stream_first, docs_at in itertools.product((0, 1), repeat=5):
            if not thorough and (stream_first + docs_at + same_id) % 2 and bin(mask).count("1") not in (1, 4): continue
            name = lambda n: "same" if same_name else n
            at = lambda n: 6 if same_id else n
            def a(bit, text):
                h = bool(mask >> bit & 1)
                return dict(hidden=h, docs=[line(f" {text}")] if h == bool(docs_at) else [])
            ups = [Item("request_update", name("up"), at(1), ["u8"], **a(0, "up")), Item("response_update", name("down"), at(2), ["u8"], **a(1, "down"))]
            items = [Item("service", name("svc"), at(3), ["u8", "u8"], updates=ups if up_first else ups[::-1], **a(2, "service")), Item("stream", name("st"), at(4), ["u8"], **a(3, "stream"))]
            yield Def(items[::-1] if stream_first else items, group="attributes of one item", **a(4, "interface"))
    for few in range(3):
        for hidden in itertools.combinations(range(10), few):
            for backwards in (0, 1):
                a = lambda k: dict(hidden=k in hidden, docs=[line(f" item {k}")] if (k in hidden) == bool(backwards) else [])
                ups = lambda b: [Item(u, n, i, ["u8"], **a(b + k)) for k, (u, n, i) in enumerate([("request_update", "x", 1), ("response_update", "x", 1), ("request_update", "y", 2), ("response_update", "y", 2)])]
                turn = lambda l: l[::-1] if backwards else l
                yield Def(turn([Item("service", "s", 1, ["u8", "u8"], updates=turn(ups(2)), **a(0)), Item("stream", "s", 1, ["u8"], **a(1)),
                                Item("service", "t", 2, ["u8", "u8"], updates=turn(ups(4)), **a(8)), Item("stream", "t", 2, ["u8"], **a(9))]), group="attributes of one item")
    # IDs, types, names and visibilities in every position.
    def place(kind, name="st", id="5", t=("u8", "u16")):
        if kind == "service": return [Item("stream", "first", 1, ["u8"]), Item("service", name, id, list(t))]
        if kind == "stream": return [Item("service", "first", 1, ["u8", "u8"]), Item("stream", name, id, [t[0]])]
        return [Item("service", "svc", 1, ["u8", "u8"], updates=[Item(UPDATES[1 - UPDATES.index(kind)], "other", 77, ["u8"]), Item(kind, name, id, [t[0]])])]
    kinds = ("service", "stream") + UPDATES
    for kind in kinds:
        for i in IDS: yield Def(place(kind, id=i), group="IDs")
        for n in NAMES: yield Def(place(kind, name=n), group="names")
        for t in TYPES:
            yield Def(place(kind, t=(t, "u8")), group="types")
            if kind == "service": yield Def(place(kind, t=("u8", t)), group="types"); yield Def(place(kind, t=(t, t)), group="types")
        for bad in ("2147483648", "-2147483649", "0x80000000", "4294967295", "99999999999999999999"): yield Def(place(kind, id=bad), group="IDs that are no 32 bit integers", ok=False)
    for name in ["Camera", "X", "lower", "Client", "Server", "Interface", "StreamMessage", "ReceivedMessage", "Format", "With_Underscore9"]:
        for vis in ("pub", "", "pub(crate)", "pub(super)"): yield Def(place("service") + [Item("service", "with", 3, ["u8", "u8"], updates=[Item("request_update", "u", 1, ["u8"])])], name=name, vis=vis, group="interface names and visibility")
    # Entries of one kind that share IDs or names in every possible way.
    pools = [("5", "-7", "0x2A", "2147483647", "1_0"), ("-2147483648", "0", "257", "1", "65537")]
    spell = {"5": "0x5", "0x2A": "42", "1_0": "10", "257": "0x101", "0": "0x0", "1": "0b1", "65537": "65_537", "-7": "-0x7", "2147483647": "0x7fffffff", "-2147483648": "-0x80000000"}
    for kind in kinds:
        for n in (2, 3, 4) if thorough else (2, 3):
            for ids in partitions(n):
                for names in partitions(n):
                    for style in (0, 1):
                        pool = pools[(sum(ids) + style) % 2]
                        entries, seen = [], set()
                        for a, b in zip(ids, names):
                            lit = pool[a]
                            entries.append((spell[lit] if lit in seen else lit, ["alpha", "beta", "gamma", "delta"][b]))
                            seen.add(lit)
                        ok = len(set(ids)) == n and len(set(names)) == n
                        if not ok and style == 1 and kind in ("service", "stream"):
                            # The surrounding items must not be what makes it ambiguous.
                            pass
                        yield Def(wrap(kind, entries, style), group="equal IDs and names", ok=ok)
        for a, b in itertools.permutations(SIMILAR_IDS, 2):
            if kind == "service" and "-1" in (a, b): continue
            yield Def(wrap(kind, [(a, "alpha"), (b, "beta")], 0), group="similar IDs and names")
        for a, b in itertools.permutations(SIMILAR_NAMES, 2): yield Def(wrap(kind, [("1", a), ("2", b)], 0), group="similar IDs and names")
    # Many entries of one kind: any two of them are equal, or none.
    def shuffled(n, how): return [k if how == 0 else n - 1 - k if how == 1 else (7 * k + 3) % n for k in range(n)]
    for kind in kinds:
        for n in (9, 16, 41) if thorough else (9,):
            for a, b in itertools.combinations(range(n), 2):
                for same in ("id", "name"):
                    names, ids = [f"e{k}" for k in range(n)], [10 * (k + 1) for k in range(n)]
                    if same == "id": ids[b] = ids[a]
                    else: names[b] = names[a]
                    yield Def(wrap(kind, [(str(i), x) for i, x in zip(ids, names)], 0), group="two equal entries of many", ok=False)
        for n in (5, 12, 25, 60) + ((130, 300) if thorough else ()):
            for how in range(3 if n % 7 else 2):
                order = shuffled(n, how)
                yield Def(wrap(kind, [(str(3 * i - n), f"e{order[-1 - k]}") for k, i in enumerate(order)], 0), docs=DOCS[n % len(DOCS)], group="many entries")
                yield Def(wrap(kind, [(str(i - 2), f"e{i}") for i in order], 1), group="many entries")
        for base in (0, 1, -1, 0x55555555, -2**31):
            bits = [base] + [(base ^ (1 << k)) - (2**32 if (base ^ (1 << k)) >= 2**31 else 0) for k in range(32)]
            bits = [x if x >= -2**31 else x + 2**32 for x in bits]
            if kind == "service": bits = [x for x in bits if x != -1]
            yield Def(wrap(kind, [(str(x), f"e{k}") for k, x in enumerate(bits)], 0), group="many entries")
    # Entries of different kinds that share IDs and names in every possible way: never ambiguous.
    for ids in partitions(4):
        for names in partitions(4):
            e = [(["3", "-9", "2147483647", "0"][a], ["alpha", "beta", "gamma", "delta"][b]) for a, b in zip(ids, names)]
            yield Def([Item("service", e[0][1], e[0][0], ["u8", "u8"], updates=[Item("request_update", e[1][1], e[1][0], ["u8"]), Item("response_update", e[2][1], e[2][0], ["u8"])]), Item("stream", e[3][1], e[3][0], ["u8"])], group="IDs and names shared by different kinds")
    for ids in partitions(4):
        e = [["3", "-9", "2147483647", "0"][a] for a in ids]
        yield Def([Item("service", "one", 1, ["u8", "u8"], updates=[Item("request_update", "x", e[0], ["u8"]), Item("response_update", "x", e[1], ["u8"])]),
                   Item("service", "two", 2, ["u8", "u8"], updates=[Item("request_update", "x", e[2], ["u8"]), Item("response_update", "x", e[3], ["u8"])])], group="IDs and names shared by different services")
    # Attributes that mean nothing.
    for n, text in enumerate(["#[hiden]", "#[deprecated]", "#[allow(unused)]", "#[hidden()]", "#[hidden(yes)]", "#[hidden = true]", "#[doc(hidden)]", "#[doc]", "#[doc()]", "#[doc = 1]", "#[serde::hidden]", "#[Hidden]", "#[derive(Clone)]"]):
        for kind in ("interface",) + kinds:
            for order in ("?", "d?", "?d", "h?", "?h"):
                if n > 3 and order != ["?", "d?", "?h"][n % 3]: continue
                d = Def(place("service" if kind == "interface" else kind), group="attributes that mean nothing", ok=False)
                x = d if kind == "interface" else next(x for i in d.items for x in [i] + (i.updates or []) if x.kind == kind and x.name != "other" and x.name != "first")
                x.attrs, x.strange = order, text
                x.docs, x.hidden = [line(" text")] * order.count("d"), "h" in order
                yield d
    # Names that need to be written as raw identifiers.
    for kind in kinds:
        for n in ["type", "match", "loop", "move", "async", "fn", "foo", "ref", "static", "mod"]: yield Def(place(kind, name="r#" + n), group="raw identifiers")
        for a, b in itertools.permutations(["r#type", "r#match", "types", "r#dyn"], 2): yield Def(wrap(kind, [("1", a), ("2", b)], 1), group="raw identifiers")
        yield Def(wrap(kind, [("1", "r#type"), ("2", "r#type")], 0), group="raw identifiers", ok=False)
    yield Def([Item("service", "r#type", 1, ["u8", "u8"], updates=[Item(u, "r#type", 1, ["u8"]) for u in UPDATES]), Item("stream", "r#type", 1, ["u8"])], name="r#type", group="raw identifiers")
    # Types that are named relative to the module of the interface.
    scope = "#[derive(Debug)] pub struct Deep; impl crate::Has for Deep { type Other = u16; } pub const SIZE: usize = 3; pub mod sub { #[derive(Debug)] pub struct Deep; pub const SIZE: usize = 5; }"
    paths = {"super::Deep": "crate::Deep", "self::Deep": "@::Deep", "Deep": "@::Deep", "crate::Deep": "crate::Deep", "sub::Deep": "@::sub::Deep", "self::sub::Deep": "@::sub::Deep",
        "super::super::Fmt": None, "(super::Deep, self::Deep, sub::Deep)": "(crate::Deep, @::Deep, @::sub::Deep)", "[super::Deep; 2]": "[crate::Deep; 2]", "[u8; super::SIZE]": "[u8; 7]", "[u8; self::SIZE]": "[u8; 3]", "[Deep; self::sub::SIZE]": "[@::Deep; 5]",
        "Vec<super::Deep>": "Vec<crate::Deep>", "super::Custom<super::Custom<self::Deep>>": "crate::Custom<crate::Custom<@::Deep>>", "&'static super::Deep": "&'static crate::Deep", "Option<&'static self::Deep>": "Option<&'static @::Deep>",
        "fn(super::Deep, self::Deep) -> super::Deep": "fn(crate::Deep, @::Deep) -> crate::Deep", "<super::Deep as super::Has>::Other": "u8", "<self::Deep as super::Has>::Other": "u16", "<Deep as crate::Has>::Other": "u16",
        "Custom<Option<(super::Deep,)>>": "crate::Custom<Option<(crate::Deep,)>>", "crate::Custom<super::Deep>": "crate::Custom<crate::Deep>", "std::vec::Vec<self::sub::Deep>": "Vec<@::sub::Deep>", "::std::vec::Vec<super::Deep>": "Vec<crate::Deep>"}
    del paths["super::super::Fmt"]
    for t in paths:
        for kind in kinds:
            yield Def(place(kind, t=(t, "u8")), scope=scope, real=paths, group="relative paths")
            if kind == "service": yield Def(place(kind, t=("u8", t)), scope=scope, real=paths, group="relative paths")
        yield Def([Item("service", "svc", 1, [t, t], updates=[Item(u, "up", 1, [t]) for u in UPDATES]), Item("stream", "st", 1, [t])], scope=scope, real=paths, group="relative paths")
    for a, b in itertools.permutations(list(paths)[:6], 2): yield Def([Item("service", "svc", 1, [a, b], updates=[Item(UPDATES[0], "up", 1, [b]), Item(UPDATES[1], "up", 1, [a])]), Item("stream", "st", 1, [b])], scope=scope, real=paths, group="relative paths")
    # Types that have the names of things in the generated code, and items of the standard library that are hidden by others.
    for n in ["T", "B", "E", "Body", "Error", "Message", "Peer", "PeerHandle", "Value", "Request", "Response", "Stream", "Update", "Service", "Fmt", "Def", "Body_", "Id"]:
        for kind in kinds: yield Def(place(kind, t=(n, n)), scope=f"#[derive(Debug)] pub struct {n};", real={n: "@::" + n}, group="type names")
        yield Def([Item("service", "svc", 1, [n, n], updates=[Item(u, "up", 1, [n]) for u in UPDATES]), Item("stream", "st", 1, [n])], scope=f"#[derive(Debug)] pub struct {n};", real={n: "@::" + n}, group="type names")
    hide = ["type Result<T> = ::core::result::Result<T, ()>;", "struct Result;", "struct Option;", "struct Box;", "struct String;", "struct Vec;", "trait Send {}", "trait Sync {}", "trait From {}", "trait Into {}", "trait Clone {}", "trait Default {}", "trait Iterator {}", "trait ToString {}",
        "trait Future {}", "trait Debug {}", "trait Fn {}", "trait ToOwned {}", "struct Some;", "struct None;", "struct Ok;", "struct Err;", "mod std {}", "mod core {}", "mod alloc {}", "mod fizyr_rpc {}", "macro_rules! vec { () => {} }", "macro_rules! write { () => {} }", "macro_rules! format { () => {} }", "macro_rules! panic { () => {} }",
        "macro_rules! matches { () => {} }", "macro_rules! unreachable { () => {} }", "macro_rules! assert { () => {} }", "macro_rules! stringify { () => {} }", "macro_rules! concat { () => {} }", "fn drop() {}", "mod fmt {}", "mod result {}", "mod option {}"]
    whole = lambda: [Item("service", "svc", 1, ["u8", "u16"], updates=[Item(u, n, i, [t]) for u in UPDATES for n, i, t in (("up", 1, "u8"), ("unit", 2, "()"))]), Item("service", "plain", 2, ["()", "u8"]), Item("service", "plainer", 3, ["u8", "()"]), Item("stream", "st", 1, ["u8"]), Item("stream", "unit", 2, ["()"])]
    for h in hide + [" ".join(x for x in hide if x != "struct Result;")]: yield Def(whole(), scope=h, group="hidden names of the standard library")
    # Two ambiguous places, or an ambiguous update in any of three services.
    for where in range(3):
        for kind in UPDATES:
            for same in ("id", "name"):
                svc = [Item("service", f"s{k}", k, ["u8", "u8"], updates=[Item(kind, "a", 1, ["u8"]), Item(kind, "a" if same == "name" and k == where else "b", 1 if same == "id" and k == where else 2, ["u8"])]) for k in range(3)]
                yield Def(svc, group="an ambiguous update in one of several services", ok=False)

# ---------------------------------------------------------------- compiling

def artifacts():
    r = subprocess.run(["cargo", "build", "--release", "--offline", "-p", "fizyr-rpc", "--message-format=json"], cwd=os.path.join(VERIF, "typed"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    for l in r.stdout.splitlines():
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "fizyr_rpc":
            for f in m["filenames"]:
                if f.endswith(".rlib"): return f
    print(r.stderr, file=sys.stderr)
    machinery("the crate does not build")

def machinery(text):
    shutil.rmtree(SCRATCH, ignore_errors=True)
    print(f"MACHINERY-ERROR: {text}")
    sys.exit(4)

class Batch:
    def __init__(self, number, defs, rlib):
        self.number, self.defs, self.rlib = number, list(defs), rlib
        self.rejected = {}      # index in defs -> message
        self.output = {}        # index in defs -> what the introspection printed
        self.places, self.panics = {}, {}    # index in defs -> lines with an error, message
        self.compilations = 0

    def compile(self, indices, run, timeout):
        """Returns None if everything compiles, a dictionary index -> message of those with errors, or a string if it is unknown which those are."""
        self.compilations += 1
        base = os.path.join(SCRATCH, f"b{self.number}_{self.compilations}")
        text = [PRELUDE]
        n = PRELUDE.count("\n") + 1
        ranges = []
        for i in indices:
            self.defs[i].index = i
            dump = f"pub fn p19_dump() {{ crate::dump({i}, Interface::name(), Interface::doc(), Interface::definition::<crate::Fmt>(), Interface::services::<crate::Fmt>(), Interface::streams::<crate::Fmt>()) }} {self.defs[i].api()}" if run else ""
            src = f"mod m{i} {{ use crate::Custom; {self.defs[i].scope} ::fizyr_rpc::interface! {{\n{self.defs[i].source()}\n}} {dump} }}"
            ranges.append((n + 1, n + 1 + src.count("\n"), i))
            text.append(src)
            n += 1 + src.count("\n")
        if run:
            text.append("fn main() {")
            text += [f"m{i}::p19_dump();" for i in indices]
            types = sorted(set().union(*[self.defs[i].types() for i in indices]) if indices else set())
            text += [f"println!(\"{{{{\\\"type\\\":{{}},\\\"is\\\":{{}}}}}}\", s({json.dumps(t)}), s(std::any::type_name::<{t}>()));" for t in types]
            text.append("}")
        with open(base + ".rs", "w") as f: f.write("\n".join(text) + "\n")
        out = base + (".bin" if run else ".rmeta")
        cmd = ["rustc", "--edition", "2021", "--error-format=json", "-Cdebuginfo=0", "-Copt-level=0", "--extern", f"fizyr_rpc={self.rlib}", "-L", f"dependency={os.path.join(TARGET, 'release', 'deps')}", "-o", out, base + ".rs"]
        cmd += ["--crate-name", "generated"] + (["--crate-type", "bin"] if run else ["--crate-type", "lib", "--emit=metadata"])
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=SCRATCH)
        except subprocess.TimeoutExpired:
            return "the compiler does not finish"
        os.unlink(base + ".rs")
        if r.returncode == 0:
            if run:
                p = subprocess.run([out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
                for l in p.stdout.splitlines():
                    x = json.loads(l)
                    if "index" in x: self.output[x["index"]] = x
                    else: TYPE_NAMES[x["type"]] = x["is"]
                os.unlink(out)
                if p.returncode != 0: return "the introspection panics: " + p.stderr[-500:]
            return None
        errors = {}
        for l in r.stderr.splitlines():
            if not l.startswith("{"): continue
            m = json.loads(l)
            if m.get("level") != "error" or m["message"].startswith("aborting"): continue
            lines = set()
            def walk(spans):
                for s in spans:
                    while s:
                        if s["file_name"] == base + ".rs": lines.update((s["line_start"], s["line_end"]))
                        s = s["expansion"]["span"] if s.get("expansion") else None
            walk(m["spans"])
            for c in m["children"]: walk(c["spans"])
            hit = [i for a, b, i in ranges if any(a <= x <= b for x in lines)]
            if not hit: return "error without a place: " + m["message"]
            for a, b, i in ranges:
                if i in hit:
                    errors.setdefault(i, m["message"])
                    self.places.setdefault(i, set()).update(x - a - 1 for x in lines if a <= x <= b)
                    if "panicked" in m["message"]: self.panics[i] = m["message"]
        return errors or "the compiler fails without an error: " + r.stderr[-300:]

    def work(self, indices, run, timeout):
        """Find out which definitions are accepted."""
        while indices:
            r = self.compile(indices, run, timeout)
            if r is None: return
            if isinstance(r, dict):
                self.rejected.update(r)
                indices = [i for i in indices if i not in r]
            elif len(indices) == 1:
                self.rejected[indices[0]] = r
                return
            else:
                half = len(indices) // 2
                self.work(indices[:half], run, max(20, timeout / 2)); self.work(indices[half:], run, max(20, timeout / 2))
                return

    def run(self):
        todo = list(range(len(self.defs)))
        good = [i for i in todo if self.defs[i].ok]
        bad = [i for i in todo if not self.defs[i].ok]
        # A definition that is accepted must really be accepted, whatever it is compiled together with.
        self.work(good, True, 240)
        self.work(bad, False, 240)
        return self

TYPE_NAMES = {}

def judge(d, rejected, output, places, panic):
    if rejected is not None:
        if d.ok: return f"an unambiguous definition is rejected: {rejected}"
        if panic: return f"the macro panics on a definition that is not valid: {panic}"
        if not places & d.blame(): return f"the error is not at what makes the definition invalid: {rejected} (lines {sorted(places)} of the definition)"
        return None
    if not d.ok:
        return "a definition that is not valid is accepted"
    if output is None: return "the introspection prints nothing"
    want = d.expected(TYPE_NAMES)
    got = output["def"]
    for what, g, w in [("the name", got[0], want[0]), ("the documentation", got[1], want[1]), ("the hidden flag", got[2], want[2]), ("services", got[3], want[3]), ("streams", got[4], want[4]),
                       ("name()", output["name"], want[0]), ("doc()", output["doc"], want[1]), ("services()", output["services"], want[3]), ("streams()", output["streams"], want[4])]:
        if g != w: return f"introspection: {what}: got {json.dumps(g)}, defined {json.dumps(w)}"
    return None

def main():
    shutil.rmtree(SCRATCH, ignore_errors=True)
    for e in os.listdir(TARGET):
        if e.startswith("p19-") and not os.path.exists(f"/proc/{e[4:]}"): shutil.rmtree(os.path.join(TARGET, e), ignore_errors=True)
    os.makedirs(SCRATCH)
    rlib = artifacts()
    tier = sys.argv[1]
    if tier == "replay":
        text = open(sys.argv[2]).read()
        index = json.loads(text)["choices"][0]
        defs = [list(definitions(True))[index]]
    else:
        defs = list(definitions(tier == "thorough"))
        # Positions in the thorough enumeration are what a replay file refers to.
    sources = {}
    unique = []
    for d in defs:
        key = d.scope + d.source()
        if key not in sources:
            sources[key] = d
            unique.append(d)
        elif sources[key].ok != d.ok:
            machinery("the enumeration contradicts itself:\n" + key)
    defs = unique
    # About a hundred definitions per compilation, all with about the same amount of work.
    count = (len(defs) + 99) // 100
    order = sorted(range(len(defs)), key=lambda i: -len(defs[i].source()))
    batches = [Batch(k, [defs[i] for i in sorted(order[k::count])], rlib) for k in range(count)]
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as pool: list(pool.map(Batch.run, batches))
    groups, violation, facts, samples = {}, None, 0, []
    for b in batches:
        for i, d in enumerate(b.defs):
            g = groups.setdefault(d.group, dict(name=d.group, executions=0, accepted=0, rejected=0))
            g["executions"] += 1
            g["rejected" if i in b.rejected else "accepted"] += 1
            facts += 9 if i in b.output else 1
            if g["executions"] == 1: samples.append(dict(scenario=d.group, definition=d.source().split("\n"), verdict=b.rejected.get(i, "accepted")))
            message = judge(d, b.rejected.get(i), b.output.get(i), b.places.get(i, set()), b.panics.get(i))
            if message and violation is None: violation = (d, message)
    shutil.rmtree(SCRATCH, ignore_errors=True)
    for g in groups.values(): print(f"[P19] {g['name']}: {g['executions']} definitions, {g['accepted']} accepted, {g['rejected']} rejected", file=sys.stderr)
    if tier == "replay":
        print(defs[0].source()); print(violation[1] if violation else "no violation")
        sys.exit(1 if violation else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    outcomes = len({json.dumps(o["def"]) for b in batches for o in b.output.values()}) + len({m for b in batches for m in b.rejected.values()})
    evidence = dict(property="P19", tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
        coverage=dict(states=len(defs), transitions=facts, traces_validated_against_impl=len(defs), distinct_outcomes=outcomes, exhaustive=violation is None, compilations=sum(b.compilations for b in batches), scenarios=list(groups.values()), samples=samples[:12]),
        assumptions=["Names that give equal or reserved identifiers in the generated code (foo_bar and foo__bar, a service called new) are not enumerated.", "Each definition is compiled by the installed rustc together with others."],
        wall_s=round(time.time() - START, 2), violations=1 if violation else 0)
    with open(os.path.join(VERIF, "evidence", "P19.json"), "w") as f: json.dump(evidence, f, indent=1)
    if violation:
        d, message = violation
        source = d.source()
        index = next(k for k, x in enumerate(definitions(True)) if x.source() == source and x.scope == d.scope)
        path = os.path.join(VERIF, "evidence", "replay-P19.json")
        with open(path, "w") as f: json.dump(dict(property="P19", scenario=d.group, message=message, choices=[index], replay_with=f"bash /verif/run.sh P19 replay {path}", log=source.split("\n")), f, indent=1)
        print(f"scenario {d.group}: {message}\n{source}\nVIOLATION property=P19 replay={path}")
        sys.exit(1)
    print(f"OK property=P19 definitions={len(defs)} wall={time.time() - START:.1f}s")

if __name__ == "__main__":
    try:
        main()
    except Exception as e:
        import traceback
        traceback.print_exc()
        machinery(repr(e))
