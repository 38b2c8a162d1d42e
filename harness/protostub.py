#!/usr/bin/env python3
"""Generate a small C++ class with the protobuf API for a proto3 schema.

usage: protostub.py SCHEMA.proto OUT.h

Stands in for the generated code plus libprotobuf when the serializer is
executed symbolically; the wire format (varints, packed repeated scalars,
length-delimited submessages, unknown fields skipped) is proto3's. Native
replays use the real protoc and libprotobuf instead.
"""
import re, sys

src = open(sys.argv[1]).read()
src = re.sub(r"//[^\n]*|/\*.*?\*/", "", src, flags=re.S)
pkg = re.search(r"package\s+([\w.]+)\s*;", src).group(1)
SC = {"uint64": "uint64_t", "uint32": "uint32_t", "int64": "int64_t", "int32": "int32_t", "bool": "bool",
      "sint32": "int32_t", "sint64": "int64_t", "fixed64": "uint64_t", "fixed32": "uint32_t", "string": "std::string", "bytes": "std::string"}


def parse(body, scope):
    msgs, fields, i = [], [], 0
    while i < len(body):
        m = re.compile(r"\s*message\s+(\w+)\s*\{").match(body, i)
        if m:
            d, j = 1, m.end()
            while d:
                d += {"{": 1, "}": -1}.get(body[j], 0)
                j += 1
            msgs.append((scope + [m.group(1)], body[m.end():j - 1]))
            i = j
            continue
        m = re.compile(r"\s*(repeated\s+|optional\s+)?([\w.]+)\s+(\w+)\s*=\s*(\d+)\s*(\[[^\]]*\])?\s*;").match(body, i)
        if m and m.group(2) not in ("option", "package", "syntax", "reserved"):
            fields.append(((m.group(1) or "").strip(), m.group(2), m.group(3), int(m.group(4)), "packed=false" in (m.group(5) or "").replace(" ", "")))
            i = m.end()
            continue
        m = re.compile(r"\s*[^;{}]*;").match(body, i)
        if m:
            i = m.end()
            continue
        break
    return msgs, fields


out = []


def emit(scope, body):
    msgs, fields = parse(body, scope)
    local = {}
    for s, b in msgs:
        emit(s, b)
        local[s[-1]] = "_".join(s)
    name = "_".join(scope)
    o = ["class %s : public vp_pb::Message<%s> {" % (name, name), "public:"]
    for k, v in local.items():
        o.append("  typedef %s %s;" % (v, k))
    ser, par, clear, priv = [], [], [], []
    for rep, ty, f, num, unpacked in sorted(fields, key=lambda x: x[3]):
        msg = ty not in SC
        ct = local.get(ty, ty.replace(".", "_")) if msg else SC[ty]
        ref = "const %s &" % ct if (msg or ct == "std::string") else ct
        zz = ty.startswith("sint")
        fixed = ty.startswith("fixed")
        if fixed:
            sys.exit("protostub: fixed-width fields are not modelled")
        enc = (lambda v: "vp_pb::zig(%s)" % v) if zz else (lambda v: "(uint64_t)(int64_t)(%s)" % v if ct.startswith("int") else "(uint64_t)(%s)" % v)
        dec = ("(%s)vp_pb::zag(u)" % ct) if zz else ("u != 0" if ct == "bool" else "(%s)u" % ct)
        if rep == "repeated":
            o += ["  int %s_size() const { return (int)%s_.size(); }" % (f, f),
                  "  %s %s(int i) const { return %s_[i]; }" % (ref, f, f),
                  "  const vp_pb::Repeated<%s> &%s() const { return %s_; }" % (ct, f, f),
                  "  vp_pb::Repeated<%s> *mutable_%s() { return &%s_; }" % (ct, f, f),
                  "  void clear_%s() { %s_.clear(); }" % (f, f)]
            if msg:
                o += ["  %s *add_%s() { %s_.emplace_back(); return &%s_.back(); }" % (ct, f, f, f),
                      "  %s *mutable_%s(int i) { return &%s_[i]; }" % (ct, f, f)]
            else:
                o += ["  void add_%s(%s v) { %s_.push_back(v); }" % (f, ref, f), "  void set_%s(int i, %s v) { %s_[i] = v; }" % (f, ref, f)]
            priv.append("  vp_pb::Repeated<%s> %s_;" % (ct, f))
            clear.append("%s_.clear();" % f)
            if msg:
                ser.append("    for (const auto &x : %s_) { std::string t; x.put(t); vp_pb::varint(s, %d); vp_pb::varint(s, t.size()); s += t; }" % (f, num * 8 + 2))
                par.append("    if (tag == %d) { uint64_t l; if (!vp_pb::get(p, e, l) || l > (uint64_t)(e - p)) return false; %s_.emplace_back(); if (!%s_.back().take(p, p + l)) return false; p += l; continue; }" % (num * 8 + 2, f, f))
            elif ct == "std::string":
                ser.append("    for (const auto &x : %s_) { vp_pb::varint(s, %d); vp_pb::varint(s, x.size()); s += x; }" % (f, num * 8 + 2))
                par.append("    if (tag == %d) { uint64_t l; if (!vp_pb::get(p, e, l) || l > (uint64_t)(e - p)) return false; %s_.push_back(std::string(p, p + l)); p += l; continue; }" % (num * 8 + 2, f))
            elif unpacked:
                ser.append("    for (const auto &x : %s_) { vp_pb::varint(s, %d); vp_pb::varint(s, %s); }" % (f, num * 8, enc("x")))
            else:
                ser.append("    if (!%s_.empty()) { std::string t; for (const auto &x : %s_) vp_pb::varint(t, %s); vp_pb::varint(s, %d); vp_pb::varint(s, t.size()); s += t; }" % (f, f, enc("x"), num * 8 + 2))
            if not msg and ct != "std::string":
                par.append("    if (tag == %d) { uint64_t u; if (!vp_pb::get(p, e, u)) return false; %s_.push_back(%s); continue; }" % (num * 8, f, dec))
                par.append("    if (tag == %d) { uint64_t l; if (!vp_pb::get(p, e, l) || l > (uint64_t)(e - p)) return false; const char *q = p + l; while (p < q) { uint64_t u; if (!vp_pb::get(p, q, u)) return false; %s_.push_back(%s); } continue; }" % (num * 8 + 2, f, dec))
        else:
            o += ["  %s %s() const { return %s_; }" % (ref, f, f), "  void clear_%s() { %s_ = %s(); has_%s_ = false; }" % (f, f, ct, f)]
            if msg or rep == "optional":
                o.append("  bool has_%s() const { return has_%s_; }" % (f, f))
            if msg:
                o.append("  %s *mutable_%s() { has_%s_ = true; return &%s_; }" % (ct, f, f, f))
                ser.append("    if (has_%s_) { std::string t; %s_.put(t); vp_pb::varint(s, %d); vp_pb::varint(s, t.size()); s += t; }" % (f, f, num * 8 + 2))
                par.append("    if (tag == %d) { uint64_t l; if (!vp_pb::get(p, e, l) || l > (uint64_t)(e - p)) return false; has_%s_ = true; if (!%s_.take(p, p + l)) return false; p += l; continue; }" % (num * 8 + 2, f, f))
            else:
                o.append("  void set_%s(%s v) { %s_ = v; has_%s_ = true; }" % (f, ref, f, f))
                cond = "has_%s_" % f if rep == "optional" else ("!%s_.empty()" % f if ct == "std::string" else "%s_ != 0" % f)
                if ct == "std::string":
                    ser.append("    if (%s) { vp_pb::varint(s, %d); vp_pb::varint(s, %s_.size()); s += %s_; }" % (cond, num * 8 + 2, f, f))
                    par.append("    if (tag == %d) { uint64_t l; if (!vp_pb::get(p, e, l) || l > (uint64_t)(e - p)) return false; set_%s(std::string(p, p + l)); p += l; continue; }" % (num * 8 + 2, f))
                else:
                    ser.append("    if (%s) { vp_pb::varint(s, %d); vp_pb::varint(s, %s); }" % (cond, num * 8, enc(f + "_")))
                    par.append("    if (tag == %d) { uint64_t u; if (!vp_pb::get(p, e, u)) return false; set_%s(%s); continue; }" % (num * 8, f, dec))
            priv.append("  %s %s_{}; bool has_%s_ = false;" % (ct, f, f))
            clear.append("clear_%s();" % f)
    o += ["  void Clear() { %s }" % " ".join(clear), "  void put(std::string &s) const {"] + ser + ["  }",
          "  bool take(const char *p, const char *e) {", "    while (p < e) {", "    uint64_t tag; if (!vp_pb::get(p, e, tag)) return false;"] + par + \
         ["    if (!vp_pb::skip(p, e, tag)) return false;", "    }", "    return true;", "  }", "private:"] + priv + ["};"]
    out.append("\n".join(o))


msgs, _ = parse(src, [])
for s, b in msgs:
    emit(s, b)
ns = pkg.split(".")
with open(sys.argv[2], "w") as f:
    f.write("#pragma once\n#include \"vp_pb.h\"\n" + "".join("namespace %s {\n" % n for n in ns) + "\n".join(out) + "\n" + "}\n" * len(ns))
