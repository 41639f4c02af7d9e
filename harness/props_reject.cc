// Standalone structure parsers (C21) and rejection of broken input (C10).
#include "runner.h"
#include "standalone.h"

namespace {
std::unique_ptr<uint8_t[]> exact(const Bytes& b) { std::unique_ptr<uint8_t[]> p(new uint8_t[b.size() ? b.size() : 1]); std::copy(b.begin(), b.end(), p.get()); return p; }

void run_both(const StKind& k, const Bytes& b, StCtx& x, const std::string& ctx, size_t* bits_used = nullptr) {
  StRef r = st_parse(k, b, x, x.pr->ref);
  (void)ctx;
  { Flat f; Bytes e = ref_escape(b); auto p = exact(e); bool ok = k.data(p.get(), e.size(), x, f); st_check(k, r, ok, f, "data"); }
  { Flat f; auto p = exact(b); BitBuffer bb(p.get(), b.size()); bool ok = k.bits(&bb, x, f); st_check(k, r, ok, f, "BitBuffer");
    if (ok && bits_used) { size_t by, bi; bb.GetCurrentOffset(&by, &bi); *bits_used = by * 8 + bi; } }
}
const StKind& pick_kind(Tape& t) { auto& k = st_kinds(); return k[t.below((uint32_t)k.size())]; }

void c21_standalone(Tape& t, Info& info) {
  const StKind& k = pick_kind(t); Pair pr; std::string pre;
  if (k.needs_state) pre = st_state(t, pr, !strcmp(k.node, "slice_header_in_scalable_extension"));
  StCtx x = st_context(t, k, pr);
  bool mut = t.coin(1, 4);
  StGen g = st_gen(t, k, x, pr.ref, -1, t.coin(1, 30));
  Bytes b = g.b; if (mut) mutate(t, b, 0);
  note(pre + k.name + " " + x.str() + " bytes=" + hex(b, 400) + " " + g.what.substr(0, 1000));
  StRef r = st_parse(k, b, x, pr.ref);
  if (!mut && g.ok && r.v == RefNal::REJECT) throw HarnessError("generated structure not accepted by the reference: " + r.why + " " + g.what);
  size_t used = 0;
  run_both(k, b, x, pre, &used);
  // structures without trailing bits of their own stop right after their last element
  bool own_trailing = !strcmp(k.name, "sps") || !strcmp(k.name, "subset_sps") || !strcmp(k.name, "sps_extension") || !strcmp(k.name, "pps") || !strncmp(k.name, "prefix", 6);
  if (used && r.v == RefNal::ACCEPT && !own_trailing) eq((std::string(k.name) + ": bits consumed").c_str(), used, r.bits, g.what.substr(0, 300));
  // the same behind other bits: a reader positioned anywhere (structures with trailing bits of their own start at a byte)
  if (t.coin(1, 2)) {
    size_t from = t.coin(1, 40) ? 8 * (t.coin(1, 4) ? t.below(2) ? 65536 - (size_t)t.below(60) : 1 + (size_t)t.below(70000) : t.below(2) ? ((size_t)1 << (8 + t.below(6))) - (size_t)t.below(60) : 1 + (size_t)t.below(5000)) : 1 + t.below(70); if (own_trailing) from = (from + 7) / 8 * 8; else if (from > 80) from += t.below(8);
    uint32_t fill = t.below(3); BitW w; for (size_t i = 0; i < from; i++) w.bit(fill == 2 ? (int)t.below(2) * (from < 100) : (int)fill);
    for (size_t i = 0; i < b.size() * 8; i++) w.bit(b[i / 8] >> (7 - i % 8) & 1);
    while (w.n % 8) w.bit(0);
    note(pre + k.name + " " + x.str() + " at bit " + std::to_string(from) + " bytes=" + hex(b, 400) + " " + g.what.substr(0, 1000));
    StRef r2 = st_parse(k, w.b, x, pr.ref, from); Flat f; auto p = exact(w.b); BitBuffer bb(p.get(), w.b.size()); if (!bb.ConsumeBits(from)) fail("ConsumeBits");
    bool ok = k.bits(&bb, x, f); st_check(k, r2, ok, f, "BitBuffer further on");
    if (ok && r2.v == RefNal::ACCEPT && !own_trailing) { size_t by, bi; bb.GetCurrentOffset(&by, &bi); eq((std::string(k.name) + ": bits consumed").c_str(), by * 8 + bi - from, r2.bits, "at bit " + std::to_string(from) + " " + g.what.substr(0, 300)); }
    info.label(from % 8 ? "unaligned" : from > 80 ? "far into the buffer" : "aligned");
  }
  if (r.v == RefNal::ACCEPT) info.nt(fnv(b, fnv(k.name, strlen(k.name), x.slice_type * 64 + x.cat * 16 + x.idr * 8 + x.ref_idc)));
  info.label(std::string(k.name) + (r.v == RefNal::ACCEPT ? " accept" : r.v == RefNal::REJECT ? " reject" : " either"));
  info.sample = x.str() + " " + g.what.substr(0, 500);
}
// ---------------------------------------------------------------- C10
// one range-checked element just outside (or far outside) its range
void c10_fault(Tape& t, Info& info) {
  const StKind& k = pick_kind(t); Pair pr; std::string pre;
  if (k.needs_state) pre = st_state(t, pr, !strcmp(k.node, "slice_header_in_scalable_extension"));
  StCtx x = st_context(t, k, pr);
  uint32_t fw = t.next(); Tape t2 = t; StGen probe = st_gen(t2, k, x, pr.ref, -1, false); t.probed(t2);
  if (probe.hard == 0) { info.label("no checked element"); return; }
  StGen g = st_gen(t, k, x, pr.ref, (int)(fw % (uint32_t)probe.hard), false);
  note(pre + k.name + " fault=" + g.fault + " " + x.str() + " bytes=" + hex(g.b, 400) + " " + g.what.substr(0, 1000));
  StRef r = st_parse(k, g.b, x, pr.ref);
  run_both(k, g.b, x, pre);
  if (r.v == RefNal::REJECT) info.nt(fnv(g.b, fnv(k.name, strlen(k.name))));
  info.label(std::string(k.name) + "." + g.fault);
  info.sample = r.why + " | " + g.what.substr(0, 400);
}
// every proper prefix of a valid structure / NAL unit
void c10_trunc(Tape& t, Info& info) {
  const StKind& k = pick_kind(t); Pair pr; std::string pre;
  if (k.needs_state) pre = st_state(t, pr, !strcmp(k.node, "slice_header_in_scalable_extension"));
  StCtx x = st_context(t, k, pr);
  StGen g = st_gen(t, k, x, pr.ref, -1, false);
  int rejected = 0;
  size_t n = g.b.size();
  for (size_t c = 0; c < n; c++) {
    if (n > 60 && t.below(8)) continue;
    Bytes b(g.b.begin(), g.b.begin() + c);
    note(pre + k.name + " cut to " + std::to_string(c) + " of " + std::to_string(n) + " bytes " + x.str() + " bytes=" + hex(b, 400) + " " + g.what.substr(0, 1000));
    StRef r = st_parse(k, b, x, pr.ref); if (r.v == RefNal::REJECT) rejected++;
    run_both(k, b, x, pre);
  }
  if (rejected) info.nt(fnv(g.b, fnv(k.name, strlen(k.name))));
  info.label(std::string(k.name) + " cut");
  info.sample = std::to_string(rejected) + " rejected prefixes of " + g.what.substr(0, 400);
}
// whole NAL units: a broken payload is kept with no payload and changes nothing
void c10_nal(Tape& t, Info& info) {
  Pair pr; bool svc = t.coin(1, 3); std::string pre = st_state(t, pr, svc);
  static const uint32_t a[6] = {7, 8, 1, 5, 7, 8}, b[5] = {15, 14, 20, 20, 8};
  uint32_t nut = svc ? b[t.below(5)] : a[t.below(6)];
  GenOpt o; o.small_ids = true; uint32_t fw = t.next();
  bool fault = t.below(2);
  if (fault) { Tape t2 = t; GenNal p = gen_nal(t2, nut, pr.ref, o); t.probed(t2); if (p.hard) o.fault_at = (int)(fw % (uint32_t)p.hard); }
  GenNal g = gen_nal(t, nut, pr.ref, o);
  Bytes nal = g.nal;
  if (!fault && nal.size() > 1) nal.resize(t.below((uint32_t)nal.size()));
  note("context " + pre + (fault ? " fault=" + g.fault : std::string(" truncated")) + " nal=" + hex(nal, 400) + " " + g.what.substr(0, 1000));
  RefNal r = ref_decode(nal, pr.ref);
  auto before_s = pr.lib.sps; auto before_p = pr.lib.pps; auto before_u = pr.lib.subset_sps;
  auto n = lib_parse(nal, &pr.lib);
  bool ok = check_nal(r, n.get());
  if (!ok) CHECK(before_s == pr.lib.sps && before_p == pr.lib.pps && before_u == pr.lib.subset_sps, "a rejected NAL unit changed the stored parameter sets");
  if (r.v == RefNal::REJECT) info.nt(fnv(nal));
  info.label("nut" + std::to_string(nut) + (r.hdr_ok ? r.v == RefNal::REJECT ? " reject" : " other" : " header-reject"));
  info.sample = (r.why.empty() ? "accepted" : r.why) + " | " + hex(nal, 60) + " " + g.what.substr(0, 300);
}
}  // namespace
PROP("C21", "standalone", c21_standalone, 250000, 20000000, "one of 18 structure parsers called on its own, data/length and BitBuffer forms, the latter also behind 1 to 70 bits or up to 70000 bytes, valid or mutated bytes; non-trivial: a structure the reference accepts; distinct by structure, context and bytes");
PROP("C10", "fault", c10_fault, 250000, 20000000, "one structure with exactly one range-checked element written outside its range; non-trivial: the reference rejects it; distinct by structure and bytes");
PROP("C10", "trunc", c10_trunc, 40000, 3000000, "every (for long ones: 1 in 8) proper byte prefix of a valid structure; non-trivial: at least one prefix must be rejected; distinct by structure and bytes");
PROP("C10", "nal", c10_nal, 100000, 8000000, "NAL unit with one broken element or cut short, after 2-4 parameter sets; non-trivial: the reference rejects the payload; distinct by NAL unit");
#ifdef SMALL_FOOTPRINT
PROP("C24", "structure", c21_standalone, 80000, 4000000, "small footprint build: single structures as for C21");
PROP("C24", "nal", c10_nal, 20000, 1000000, "small footprint build: broken NAL units as for C10");
PROP("C24", "fault", c10_fault, 80000, 4000000, "small footprint build: single faults as for C10");
#endif
