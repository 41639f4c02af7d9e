// Decode fidelity of SPS / PPS / slice / SVC structures (differential against
// the reference walkers).
#include "gen.h"
#include "runner.h"

namespace {
// ---- one NAL of a kind, valid / faulty / truncated / mutated
enum Mode { VALID, FAULT, TRUNC, MUT };
void decode_case(Tape& t, Info& info, uint32_t nut, Pair& pr, Mode m, const std::string& prelude, const GenOpt& base = GenOpt()) {
  GenOpt o = base;
  o.big = t.coin(1, 40);
  std::string how = "valid";
  GenNal g;
  if (m == FAULT) {
    // first pass counts the range-checked elements, second pass breaks one:
    // both read the same tape prefix
    uint32_t fw = t.next();
    Tape t2 = t; GenNal probe = gen_nal(t2, nut, pr.ref, o); t.probed(t2);
    if (probe.hard > 0) o.fault_at = (int)(fw % (uint32_t)probe.hard);
    g = gen_nal(t, nut, pr.ref, o);
    how = "fault:" + g.fault;
  } else g = gen_nal(t, nut, pr.ref, o);
  Bytes nal = g.nal;
  if (m == VALID && !g.unimpl && !g.rejected) {
    RefNal r = ref_decode(nal, pr.ref);
    self_check(g, r);
  }
  if (m == TRUNC && nal.size() > 1) { size_t lo = (g.hdr_bits + 7) / 8; size_t k = nal.size() <= lo ? nal.size() : lo + t.below((uint32_t)(nal.size() - lo)); nal.resize(k); how = "truncate"; }
  if (m == MUT) { size_t lo = t.coin(1, 10) ? 0 : (g.hdr_bits + 7) / 8; how = "mutate:"; int n = 1 + t.below(2); while (n--) how += mutate(t, nal, lo) + ","; }
  note(prelude + how + " nal(unescaped)=" + hex(nal, 400) + " | generated from " + g.what.substr(0, 1500));
  RefNal r = ref_decode(nal, pr.ref);
  auto n = lib_parse(nal, &pr.lib);
  bool ok = check_nal(r, n.get());
  if (ok && !r.opaque) ref_commit(r, pr.ref);
  info.nt(fnv(nal, fnv(prelude.data(), prelude.size())));
  info.label(r.v == RefNal::ACCEPT ? "accept" : r.v == RefNal::REJECT ? "reject" : r.v == RefNal::EITHER ? "either" : "no-decoder");
  info.label(m == VALID ? "valid" : m == FAULT ? "fault" : m == TRUNC ? "truncated" : "mutated");
  if (m == FAULT) info.label("fault:" + g.fault);
  info.sample = how + " " + hex(nal, 60) + " " + g.what.substr(0, 500);
}
Mode pick_mode(Tape& t) { uint32_t k = t.below(10); return k < 5 ? VALID : k < 7 ? MUT : k < 8 ? TRUNC : FAULT; }

// build a context of parameter sets through the real parser and the reference
std::string context(Tape& t, Pair& pr, bool svc) {
  std::string s;
  GenOpt o; o.small_ids = true; 
  int nsps = 1 + t.below(2), npps = 1 + t.below(3);
  auto add = [&](uint32_t nut) {
    GenOpt q = o;
    if (nut == 8) { q.pg.sps_ids = svc ? keys_of(pr.ref.sub) : keys_of(pr.ref.sps); q.pg.map_units = 8; }
    if (t.coin(1, 3)) q.sg.dim_hi = 12;
    GenNal g = gen_nal(t, nut, pr.ref, q);
    s += "[" + hex(g.nal, 300) + "] ";
    note("context " + s);
    RefNal r = ref_decode(g.nal, pr.ref);
    self_check(g, r);
    auto n = lib_parse(g.nal, &pr.lib);
    bool ok = n && n->nal_unit_payload && n->nal_unit_payload->IsPayloadParsed(nut);
    if (ok) ref_commit(r, pr.ref);
  };
  if (svc) { for (int i = 0; i < nsps; i++) add(15); if (t.coin(1, 3)) add(7); }
  else for (int i = 0; i < nsps; i++) add(7);
  for (int i = 0; i < npps; i++) add(8);
  return "context " + s;
}

void c05_sps(Tape& t, Info& i) { Pair pr; decode_case(t, i, 7, pr, pick_mode(t), ""); }
void c07_pps(Tape& t, Info& i) {
  Pair pr; std::string s;
  GenOpt o;
  if (t.coin(3, 4)) {  // with SPSs known to the parser
    GenOpt q; q.small_ids = true; int n = 1 + t.below(2);
    for (int k = 0; k < n; k++) { GenNal g = gen_nal(t, t.coin(1, 6) ? 15 : 7, pr.ref, q); s += "[" + hex(g.nal, 300) + "] "; note(s); RefNal r = ref_decode(g.nal, pr.ref); self_check(g, r); auto nn = lib_parse(g.nal, &pr.lib); if (nn && nn->nal_unit_payload && nn->nal_unit_payload->IsPayloadParsed(g.nut)) ref_commit(r, pr.ref); }
    o.pg.sps_ids = keys_of(pr.ref.sps);
    if (t.coin(1, 8)) o.pg.sps_ids.clear();
  }
  decode_case(t, i, 8, pr, pick_mode(t), s, o);
}
void c08_slice(Tape& t, Info& i) {
  Pair pr; std::string s = context(t, pr, false);
  int n = 1 + t.below(3);
  while (n--) decode_case(t, i, t.coin(1, 3) ? 5 : 1, pr, pick_mode(t), s);
}
void c09_svc(Tape& t, Info& i) {
  uint32_t k = t.below(10);
  Pair pr;
  if (k < 2) decode_case(t, i, 15, pr, pick_mode(t), "");
  else if (k < 4) decode_case(t, i, 14, pr, pick_mode(t), "");
  else { std::string s = context(t, pr, true); int n = 1 + t.below(3); while (n--) decode_case(t, i, 20, pr, pick_mode(t), s); }
}
}  // namespace
PROP("C05", "sps", c05_sps, 400000, 12000000, "one SPS NAL unit; half valid (grammar-generated, boundary-biased), the rest with one element out of range, cut short or byte-mutated; non-trivial: every case (a decodable NAL header and a payload judged by the reference); distinct by context and NAL unit bytes; classes count accept/reject");
PROP("C07", "pps", c07_pps, 250000, 8000000, "zero to two SPSs/subset SPSs, then one PPS; half valid (grammar-generated, boundary-biased), the rest with one element out of range, cut short or byte-mutated; non-trivial: every case (a decodable NAL header and a payload judged by the reference); distinct by context and NAL unit bytes; classes count accept/reject");
PROP("C08", "slice", c08_slice, 130000, 4000000, "one or two SPSs, one to three PPSs, then one to three coded slices; half valid (grammar-generated, boundary-biased), the rest with one element out of range, cut short or byte-mutated; non-trivial: every case (a decodable NAL header and a payload judged by the reference); distinct by context and NAL unit bytes; classes count accept/reject");
PROP("C09", "svc", c09_svc, 130000, 4000000, "subset SPS, prefix NAL unit, or subset SPSs and PPSs followed by one to three scalable slices; half valid (grammar-generated, boundary-biased), the rest with one element out of range, cut short or byte-mutated; non-trivial: every case (a decodable NAL header and a payload judged by the reference); distinct by context and NAL unit bytes; classes count accept/reject");
#ifdef SMALL_FOOTPRINT
PROP("C24", "sps", c05_sps, 80000, 3000000, "small footprint build: SPSs as for C05");
PROP("C24", "pps", c07_pps, 50000, 2000000, "small footprint build: PPSs as for C07");
PROP("C24", "slice", c08_slice, 40000, 1500000, "small footprint build: slices as for C08");
PROP("C24", "svc", c09_svc, 40000, 1500000, "small footprint build: scalable structures as for C09");
#endif
