// Every single-field corruption of a cache file: the message is walked with the
// schema (Cap'n Proto's dynamic API) and each field in turn gets each value of
// an alphabet; lists also get other sizes.
#pragma once
#include "cachedir.hpp"
#include <capnp/dynamic.h>
#include <capnp/schema.h>
namespace vf {
struct Mutator {
  long target, at = 0; string what; vector<string> texts, jsons; bool done = false;
  Mutator(long t, const vector<string>& uuids, bool thorough) : target(t) {
    texts = {"", "zz", "00000099-0000-4000-8000-000000000099", "000000a1-0000-4000-8000-00000000000", "\xff\xfe\x80", string(3000, 'a'), "{000000a1-0000-4000-8000-000000000000}", "bus", "transferable", "nomode"}; for (auto& u : uuids) texts.push_back(u);
    string deep(thorough ? 200000 : 20000, '['); jsons = {"{", "null", "[]", "3", "\"x\"", "{\"segments\":null}", "{\"segments\":{}}", "{\"segments\":[]}", "{\"segments\":[null]}", "{\"segments\":[3]}", "{\"segments\":[[1]]}", "{\"segments\":[{}]}", "{\"segments\":[{\"distanceMeters\":null}]}", "{\"segments\":[{\"distanceMeters\":\"x\"}]}", "{\"segments\":[{\"distanceMeters\":1e308},{\"distanceMeters\":-1e308}]}", "{\"segments\":[{\"distanceMeters\":-5}]}", "{\"segments\":[{\"distanceMeters\":4294967296},{\"distanceMeters\":18446744073709551615}]}", "{\"segments\":[{\"distanceMeters\":1.5},{\"distanceMeters\":true},{\"distanceMeters\":[]},{\"distanceMeters\":{}}]}", "{\"segments\":\"x\"}", "{\"segments\":[{\"distanceMeters\":1},{\"distanceMeters\":1},{\"distanceMeters\":1},{\"distanceMeters\":1},{\"distanceMeters\":1},{\"distanceMeters\":1},{\"distanceMeters\":1},{\"distanceMeters\":1}]}", deep, "{\"segments\":" + deep, "{\"segments\":[{\"distanceMeters\":1}]} x", "\xef\xbb\xbf{}", "{\"segments\":[{\"distanceMeters\":NaN}]}" }; }
  bool hit(const string& path, const string& val) { if (at++ != target) return false; done = true; what = path + " = " + (val.size() > 60 ? val.substr(0, 60) + "..." : val); return true; }
  static vector<int64_t> ints(int bits, bool sign) { int64_t mx = sign ? (1ll << (bits - 1)) - 1 : bits == 64 ? INT64_MAX : (1ll << bits) - 1, mn = sign ? -mx - 1 : 0; vector<int64_t> v = {mn, mx, 0, 1, 2}; if (sign) v.push_back(-1); if (bits >= 32) { v.push_back(mx - 1); v.push_back(mx / 2); v.push_back(100000); } return v; }
  template <class Set> bool scalar(const ::capnp::Type& t, const string& path, Set set) {
    using K = ::capnp::schema::Type; int bits = 0; bool sign = true;
    switch (t.which()) { case K::INT8: bits = 8; break; case K::INT16: bits = 16; break; case K::INT32: bits = 32; break; case K::INT64: bits = 64; break; case K::UINT8: bits = 8; sign = false; break; case K::UINT16: bits = 16; sign = false; break; case K::UINT32: bits = 32; sign = false; break; case K::UINT64: bits = 64; sign = false; break;
      case K::BOOL: for (int b = 0; b < 2; b++) if (hit(path, to_string(b))) { set(::capnp::DynamicValue::Reader((bool)b)); return true; } return false;
      case K::FLOAT32: case K::FLOAT64: for (double v : {0.0, -1.0, 1e30, -1e30, (double)NAN, (double)INFINITY}) if (hit(path, to_string(v))) { set(::capnp::DynamicValue::Reader(v)); return true; } return false;
      case K::TEXT: { for (auto& s : texts) if (hit(path, s)) { set(::capnp::DynamicValue::Reader(::capnp::Text::Reader(s.c_str(), s.size()))); return true; } if (path.size() >= 5 && path.compare(path.size() - 5, 5, ".data") == 0) for (auto& s : jsons) if (hit(path, s)) { set(::capnp::DynamicValue::Reader(::capnp::Text::Reader(s.c_str(), s.size()))); return true; } return false; }
      case K::ENUM: for (int v : {0, 1, 2, 999}) if (hit(path, "enum " + to_string(v))) { set(::capnp::DynamicValue::Reader(::capnp::DynamicEnum(t.asEnum(), v))); return true; } return false;
      default: return false; }
    for (int64_t v : ints(bits, sign)) if (hit(path, to_string(v))) { if (sign) set(::capnp::DynamicValue::Reader(v)); else set(::capnp::DynamicValue::Reader((uint64_t)v)); return true; }
    return false; }
  bool visit(::capnp::DynamicStruct::Builder b, const string& path) {
    for (auto f : b.getSchema().getFields()) { string p = path + "." + f.getProto().getName().cStr(); auto t = f.getType(); using K = ::capnp::schema::Type;
      if (f.getProto().getDiscriminantValue() != 0xffff) continue;
      if (t.which() == K::LIST) {
        unsigned n = b.get(f).as<::capnp::DynamicList>().size(); auto et = t.asList().getElementType();
        vector<long> sizes = {0, (long)n - 1, (long)n + 1, (long)n + 2, 2 * (long)n + 3, 300}; std::set<long> done2; for (long m : sizes) { if (m < 0 || m == (long)n || !done2.insert(m).second) continue; if (hit(p, to_string(m) + " elements instead of " + to_string(n))) { resize(b, f, n, m); return true; } }
        if (n >= 2) if (hit(p, "first element repeated")) { auto l = b.get(f).as<::capnp::DynamicList>(); if (et.isStruct()) { ::capnp::MallocMessageBuilder tmp; tmp.setRoot(l[0].as<::capnp::DynamicStruct>().asReader()); l.set(1, tmp.getRoot<::capnp::DynamicStruct>(et.asStruct()).asReader()); } else { auto v = l[0].asReader(); if (et.isText()) { string s(v.as<::capnp::Text>().cStr()); l.set(1, ::capnp::Text::Reader(s.c_str(), s.size())); } else l.set(1, v); } return true; }
        if (n >= 2) if (hit(p, "first and last swapped")) { auto l = b.get(f).as<::capnp::DynamicList>(); if (et.isStruct()) { ::capnp::MallocMessageBuilder t1, t2; t1.setRoot(l[0].as<::capnp::DynamicStruct>().asReader()); t2.setRoot(l[n - 1].as<::capnp::DynamicStruct>().asReader()); l.set(0, t2.getRoot<::capnp::DynamicStruct>(et.asStruct()).asReader()); l.set(n - 1, t1.getRoot<::capnp::DynamicStruct>(et.asStruct()).asReader()); } else if (et.isText()) { string x(l[0].as<::capnp::Text>().cStr()), y(l[n - 1].as<::capnp::Text>().cStr()); l.set(0, ::capnp::Text::Reader(y.c_str(), y.size())); l.set(n - 1, ::capnp::Text::Reader(x.c_str(), x.size())); } else { auto x = l[0].as<int64_t>(), y = l[n - 1].as<int64_t>(); l.set(0, y); l.set(n - 1, x); } return true; }
        auto l = b.get(f).as<::capnp::DynamicList>();
        for (unsigned i = 0; i < n; i++) { string q = p + "[" + to_string(i) + "]"; if (et.isStruct()) { if (visit(l[i].as<::capnp::DynamicStruct>(), q)) return true; } else if (scalar(et, q, [&](::capnp::DynamicValue::Reader v) { l.set(i, v); })) return true; }
      } else if (t.which() == K::STRUCT) { if (visit(b.get(f).as<::capnp::DynamicStruct>(), p)) return true; }
      else if (scalar(t, p, [&](::capnp::DynamicValue::Reader v) { b.set(f, v); })) return true;
    }
    return false; }
  static void resize(::capnp::DynamicStruct::Builder b, ::capnp::StructSchema::Field f, unsigned n, unsigned m) {
    auto orphan = b.disown(f); auto l = b.init(f, m).as<::capnp::DynamicList>(); auto et = f.getType().asList().getElementType(); if (!n) return; auto old = orphan.getReader().as<::capnp::DynamicList>();
    for (unsigned i = 0; i < m; i++) { unsigned k = i < n ? i : n - 1; if (et.isStruct()) l.set(i, old[k].as<::capnp::DynamicStruct>()); else l.set(i, old[k]); } }
};
// one mutant of a packed message; false when there is no such mutant
template <class Root> inline bool mutant(const string& packed, long target, const vector<string>& uuids, bool thorough, string& out, string& what) {
  kj::ArrayInputStream in(kj::arrayPtr((const kj::byte*)packed.data(), packed.size())); ::capnp::PackedMessageReader r(in); ::capnp::MallocMessageBuilder m; m.setRoot(r.getRoot<Root>());
  Mutator mu(target, uuids, thorough); mu.visit(m.getRoot<::capnp::DynamicStruct>(::capnp::Schema::from<Root>()), ""); if (!mu.done) { what = to_string(mu.at); return false; } what = mu.what; out = packMessage(m); return true;
}
inline bool mutantOf(const string& file, const string& packed, long target, const vector<string>& uuids, bool th, string& out, string& what) {
  auto starts = [&](const char* p) { return file.compare(0, strlen(p), p) == 0; }; auto ends = [&](const char* p) { size_t n = strlen(p); return file.size() >= n && file.compare(file.size() - n, n, p) == 0; };
  if (starts("agencies")) return mutant<agencyCollection::AgencyCollection>(packed, target, uuids, th, out, what); if (starts("services")) return mutant<serviceCollection::ServiceCollection>(packed, target, uuids, th, out, what); if (starts("nodes/")) return mutant<node::Node>(packed, target, uuids, th, out, what); if (starts("nodes")) return mutant<nodeCollection::NodeCollection>(packed, target, uuids, th, out, what);
  if (starts("lines/")) return mutant<line::Line>(packed, target, uuids, th, out, what); if (starts("lines")) return mutant<lineCollection::LineCollection>(packed, target, uuids, th, out, what); if (starts("paths")) return mutant<pathCollection::PathCollection>(packed, target, uuids, th, out, what); if (starts("scenarios")) return mutant<scenarioCollection::ScenarioCollection>(packed, target, uuids, th, out, what); if (starts("dataSources.")) return mutant<dataSourceCollection::DataSourceCollection>(packed, target, uuids, th, out, what);
  if (ends("persons.capnpbin")) return mutant<personCollection::PersonCollection>(packed, target, uuids, th, out, what); if (ends("odTrips.capnpbin")) return mutant<odTripCollection::OdTripCollection>(packed, target, uuids, th, out, what);
  static const vector<string> counts = {"", "0", "2", "-1", "x", "99999999999", "1 2", "1000000"}; if (ends(".count")) { if (target < 0 || target >= (long)counts.size()) { what = to_string(counts.size()); return false; } out = counts[target]; what = "content '" + out + "'"; return true; }
  what = "0"; return false;
}
} // namespace vf
