@include world.vc
@stub ~add_json_to_file from_str to_string_pretty
@raw
// ======== the log of results (C24) ========
pub mod logs {
use super::*;
#[verifier::external_body] pub struct Value { x: u8 }
impl VEq for Value { #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl VClone for Value { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
// JSON values: objects by their fields, texts, lists of texts, numbers
pub uninterp spec fn j_obj(m: Map<Seq<char>, Value>) -> Value;
pub uninterp spec fn j_str(s: Seq<char>) -> Value;
pub uninterp spec fn j_strs(s: Seq<Seq<char>>) -> Value;
pub uninterp spec fn j_num(n: nat) -> Value;
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub trait VJson { spec fn jval(&self) -> Value; fn vjson(&self) -> (r: Value) ensures r == self.jval(); }
impl VJson for Value { open spec fn jval(&self) -> Value { *self } #[verifier::external_body] fn vjson(&self) -> (r: Value) { unimplemented!() } }
impl VJson for String { open spec fn jval(&self) -> Value { j_str(self@) } #[verifier::external_body] fn vjson(&self) -> (r: Value) { unimplemented!() } }
impl VJson for Vec<String> { open spec fn jval(&self) -> Value { j_strs(texts(self@)) } #[verifier::external_body] fn vjson(&self) -> (r: Value) { unimplemented!() } }
impl VJson for usize { open spec fn jval(&self) -> Value { j_num(*self as nat) } #[verifier::external_body] fn vjson(&self) -> (r: Value) { unimplemented!() } }
impl<T: VJson> VJson for &T { open spec fn jval(&self) -> Value { (**self).jval() } #[verifier::external_body] fn vjson(&self) -> (r: Value) { unimplemented!() } }
#[verifier::external_body] pub struct JObj { x: u8 }
pub uninterp spec fn fields(o: JObj) -> Map<Seq<char>, Value>;
#[verifier::external_body] pub fn vx_obj() -> (r: JObj) ensures fields(r) == Map::<Seq<char>, Value>::empty() { unimplemented!() }
impl JObj {
    #[verifier::external_body] pub fn vfield<T: VJson>(&mut self, k: &String, v: &T) ensures fields(*final(self)) == fields(*old(self)).insert(k@, v.jval()) { unimplemented!() }
    #[verifier::external_body] pub fn vdone(self) -> (r: Value) ensures r == j_obj(fields(self)) { unimplemented!() }
}
/// an object is its fields, in whatever order they were given
pub uninterp spec fn jfields(v: Value) -> Map<Seq<char>, Value>;
pub broadcast axiom fn ax_obj(m: Map<Seq<char>, Value>) ensures jfields(#[trigger] j_obj(m)) == m;
/// the array a text is read as
pub uninterp spec fn json_read(s: Seq<char>) -> Option<Seq<Value>>;
pub uninterp spec fn json_text(v: Seq<Value>) -> Seq<char>;
#[verifier::external_body] pub fn from_str(s: &String) -> (r: Result<Vec<Value>, IoErr>) ensures r matches Ok(v) ==> json_read(s@) == Some(v@) { unimplemented!() }
#[verifier::external_body] pub fn to_string_pretty(v: &Vec<Value>) -> (r: Result<String, IoErr>) ensures r matches Ok(s) ==> s@ == json_text(v@) { unimplemented!() }
/// the records in the file of results
pub open spec fn records_in(f: Map<Seq<char>, Seq<char>>) -> Option<Seq<Value>> { if !f.dom().contains(results()) || f[results()].len() == 0 { Some(Seq::empty()) } else { json_read(f[results()]) } }
pub open spec fn records(w: World) -> Option<Seq<Value>> { records_in(files(w)) }
pub open spec fn results() -> Seq<char> { "nightly/data/output.json"@ }
/// one more record, last; everything else as it was
pub open spec fn added(f0: Map<Seq<char>, Seq<char>>, f1: Map<Seq<char>, Seq<char>>, v: Value) -> bool { records_in(f0) matches Some(s) && f1 == f0.insert(results(), json_text(s.push(v))) }
pub open spec fn logged(w0: World, w1: World, v: Value) -> bool { added(files(w0), files(w1), v) }
/// serde_json reads back what it prints
pub axiom fn ax_json(v: Seq<Value>) ensures json_read(json_text(v)) == Some(v), json_text(v).len() > 0;
/// C24: after logging vs one after the other, the file holds what it held, then vs, in order; other files are unchanged
pub proof fn theorem_log(ws: Seq<World>, vs: Seq<Value>, n: int)
    requires ws.len() == vs.len() + 1, forall|k: int| 0 <= k < vs.len() ==> logged(ws[k], #[trigger] ws[k + 1], vs[k]), 0 <= n <= vs.len(), records(ws[0]) is Some,
    ensures records(ws[n]) == Some(records(ws[0])->Some_0 + vs.take(n)), forall|f: Seq<char>| f != results() ==> (#[trigger] files(ws[n]).dom().contains(f) <==> files(ws[0]).dom().contains(f)) && files(ws[n])[f] == files(ws[0])[f],
    decreases n,
{
    if n > 0 {
        theorem_log(ws, vs, n - 1);
        assert(logged(ws[n - 1], ws[(n - 1) + 1], vs[n - 1]));
        let old = records(ws[n - 1])->Some_0;
        ax_json(old.push(vs[n - 1]));
        assert(old.push(vs[n - 1]) =~= records(ws[0])->Some_0 + vs.take(n));
    } else { assert(records(ws[0])->Some_0 + vs.take(0) =~= records(ws[0])->Some_0); }
}
} // mod logs
use logs::*;
@fn add_json_to_file
@props C24
@flags panics-ok world
@sig fn add_json_to_file(json: Value, vx_w: &mut World) | fn add_json_to_file (json : Value)
@spec
    ensures logged(*old(vx_w), *final(vx_w), json),
@entry
    broadcast use {ax_mkstr_of, lemma_last_write};
@end
@mono L / SynthLanguage / Ruleset Phase
@type DeriveType Copy
@type Limits Copy
@type Scheduler Copy
@stub ~count_lines ~.vlines get_derivability .derive .partition .to_str_vec .elapsed .as_secs_f64 .is_valid
@raw
// ---- what the records are made of (derive, partition and to_str_vec are under contract in the rules unit) ----
pub mod lg {
use super::*;
#[verifier::external_body] pub struct Rule { x: u8 }
#[verifier::external_body] pub struct Ruleset { x: u8 }
pub use super::{DeriveType, Limits, Scheduler};
#[verifier::external_body] pub struct Instant { x: u8 }
#[verifier::external_body] pub struct Duration { x: u8 }
#[verifier::external_body] pub struct Seconds { x: u8 }
pub uninterp spec fn secs(d: Duration) -> Seconds;
pub uninterp spec fn j_secs(s: Seconds) -> Value;
pub uninterp spec fn j_dt(t: DeriveType) -> Value;
pub uninterp spec fn judged(r: Rule) -> bool;
pub uninterp spec fn members(rs: Ruleset) -> Set<Rule>;
pub uninterp spec fn rule_texts(rs: Ruleset) -> Seq<Seq<char>>;
/// the limits of the published evaluation
pub open spec fn deriving() -> Limits { Limits { iter: 5, node: 100_000, match_: 1000 } }
/// deriving the rules of one set from another gives these two parts
pub uninterp spec fn derives(a: Ruleset, t: DeriveType, b: Ruleset, l: Limits, can: Ruleset, cannot: Ruleset) -> bool;
impl VJson for Seconds { open spec fn jval(&self) -> Value { j_secs(*self) } #[verifier::external_body] fn vjson(&self) -> (r: Value) { unimplemented!() } }
impl VJson for DeriveType { open spec fn jval(&self) -> Value { j_dt(*self) } #[verifier::external_body] fn vjson(&self) -> (r: Value) { unimplemented!() } }
#[verifier::external_body] pub fn vx_now() -> (r: Instant) { unimplemented!() }
impl Instant { #[verifier::external_body] pub fn elapsed(&self) -> (r: Duration) { unimplemented!() } }
impl Duration { #[verifier::external_body] pub fn as_secs_f64(&self) -> (r: Seconds) ensures r == secs(*self) { unimplemented!() } }
impl Rule { #[verifier::external_body] pub fn is_valid(&self) -> (r: bool) ensures r == judged(*self) { unimplemented!() } }
impl Ruleset {
    #[verifier::external_body] pub fn partition<F: Fn(&Rule) -> bool>(&self, f: F) -> (r: (Ruleset, Ruleset))
        requires forall|x: Rule| #[trigger] f.requires((&x,))
        ensures forall|x: Rule| #[trigger] members(r.0).contains(x) ==> members(*self).contains(x) && f.ensures((&x,), true), forall|x: Rule| #[trigger] members(*self).contains(x) ==> members(r.0).contains(x) || f.ensures((&x,), false) { unimplemented!() }
    #[verifier::external_body] pub fn derive(&self, t: DeriveType, against: &Ruleset, l: Limits) -> (r: (Ruleset, Ruleset)) ensures derives(*self, t, *against, l, r.0, r.1) { unimplemented!() }
    #[verifier::external_body] pub fn to_str_vec(&self) -> (r: Vec<String>) ensures texts(r@) == rule_texts(*self) { unimplemented!() }
}
// ---- the records ----
pub open spec fn no_keys() -> Set<Seq<char>> { Set::empty() }
pub open spec fn is_secs(v: Value) -> bool { exists|s: Seconds| v == #[trigger] j_secs(s) }
pub open spec fn both_parts(m: Map<Seq<char>, Value>, can: Ruleset, cannot: Ruleset) -> bool { m["can"@] == j_strs(rule_texts(can)) && m["cannot"@] == j_strs(rule_texts(cannot)) && is_secs(m["time"@]) }
pub open spec fn parts_keys() -> Set<Seq<char>> { no_keys().insert("can"@).insert("cannot"@).insert("time"@) }
/// what deriving one set of rules from another gives
pub open spec fn derivability(v: Value, a: Ruleset, b: Ruleset, t: DeriveType) -> bool {
    let m = jfields(v);
    &&& m.dom() =~= parts_keys().insert("derive_type"@)
    &&& m["derive_type"@] == j_dt(t)
    &&& exists|can: Ruleset, cannot: Ruleset| #[trigger] derives(a, t, b, deriving(), can, cannot) && both_parts(m, can, cannot)
}
/// a direction of the comparison: skipped, or judged by both kinds of derivation
pub open spec fn compared(v: Value, a: Ruleset, b: Ruleset, skip: bool) -> bool {
    let m = jfields(v);
    if skip { m.dom() =~= no_keys() } else { m.dom() =~= no_keys().insert("lhs"@).insert("lhs_rhs"@) && derivability(m["lhs"@], a, b, DeriveType::Lhs) && derivability(m["lhs_rhs"@], a, b, DeriveType::LhsAndRhs) }
}
/// pairs that are too large to derive
pub open spec fn skipped(a: Seq<char>, b: Seq<char>) -> bool { a == "herbie"@ && (b == "rational_replicate"@ || b == "rational_best"@) }
/// the number of lines of a recipe, or that there is none
pub open spec fn recipe(name: Seq<char>) -> Seq<char> { "tests/recipes/"@ + name + ".rs"@ }
pub open spec fn loc_of(f: Map<Seq<char>, Seq<char>>, name: Seq<char>, v: Value) -> bool { v == j_str("-"@) || f.dom().contains(recipe(name)) && v == j_str((lines_of(f[recipe(name)]).len() as usize).shown()) }
pub open spec fn baseline_record(f: Map<Seq<char>, Seq<char>>, v: Value, rs: Ruleset, name: Seq<char>, b: Ruleset, base: Seq<char>, t: Duration) -> bool {
    let m = jfields(v);
    let d = jfields(m["derivability"@]);
    &&& m.dom() =~= no_keys().insert("TYPE"@).insert("spec_name"@).insert("baseline_name"@).insert("loc"@).insert("rules"@).insert("time"@).insert("derivability"@)
    &&& m["TYPE"@] == j_str("baseline"@) && m["spec_name"@] == j_str(name) && m["baseline_name"@] == j_str(base) && m["rules"@] == j_strs(rule_texts(rs)) && m["time"@] == j_secs(secs(t))
    &&& loc_of(f, name, m["loc"@])
    &&& d.dom() =~= no_keys().insert("enumo_derives_baseline"@).insert("baseline_derives_enumo"@)
    &&& compared(d["enumo_derives_baseline"@], rs, b, skipped(name, base))
    &&& compared(d["baseline_derives_enumo"@], b, rs, skipped(base, name))
}
/// rules and the time they took
pub open spec fn listed(v: Value, rs: Ruleset) -> bool { let m = jfields(v); m.dom() =~= no_keys().insert("rules"@).insert("time"@) && m["rules"@] == j_strs(rule_texts(rs)) && is_secs(m["time"@]) }
/// the rules of a set that are judged valid
pub open spec fn valid_part(rs: Ruleset, p: Ruleset) -> bool { (forall|x: Rule| #[trigger] members(p).contains(x) ==> members(rs).contains(x) && judged(x)) && forall|x: Rule| #[trigger] members(rs).contains(x) ==> members(p).contains(x) || !judged(x) }
pub open spec fn bv_record(v: Value, domain: Seq<char>, gen: Ruleset, t: Duration, ported: Ruleset) -> bool {
    let m = jfields(v);
    let d = jfields(m["derivability"@]);
    &&& m.dom() =~= no_keys().insert("TYPE"@).insert("domain"@).insert("direct_gen"@).insert("from_bv4"@).insert("derivability"@)
    &&& m["TYPE"@] == j_str("bv"@) && m["domain"@] == j_str(domain)
    &&& listed(m["direct_gen"@], gen) && jfields(m["direct_gen"@])["time"@] == j_secs(secs(t))
    &&& d.dom() =~= no_keys().insert("lhs"@).insert("lhs_rhs"@)
    &&& jfields(d["lhs"@]).dom() =~= parts_keys() && jfields(d["lhs_rhs"@]).dom() =~= parts_keys()
    &&& exists|sound: Ruleset, can: Ruleset, cannot: Ruleset, can2: Ruleset, cannot2: Ruleset|
        #[trigger] derives(sound, DeriveType::Lhs, gen, deriving(), can, cannot) && #[trigger] derives(sound, DeriveType::LhsAndRhs, gen, deriving(), can2, cannot2)
        && valid_part(ported, sound) && listed(m["from_bv4"@], sound) && both_parts(jfields(d["lhs"@]), can, cannot) && both_parts(jfields(d["lhs_rhs"@]), can2, cannot2)
}
/// membership in a list written out
pub broadcast proof fn lemma_push_has<T>(s: Seq<T>, a: T, x: T) ensures #[trigger] s.push(a).contains(x) <==> s.contains(x) || x == a {
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(a)[i] == x); }
    if x == a { assert(s.push(a)[s.len() as int] == x); }
    if s.push(a).contains(x) && x != a { let i = choose|i: int| 0 <= i < s.push(a).len() && s.push(a)[i] == x; assert(s[i] == x); }
}
/// one record with these contents, and it is the last
pub open spec fn logged_baseline(w0: World, w1: World, rs: Ruleset, name: Seq<char>, b: Ruleset, base: Seq<char>, t: Duration) -> bool { exists|v: Value| #[trigger] added(files(w0), files(w1), v) && baseline_record(files(w0), v, rs, name, b, base, t) }
pub open spec fn logged_bv(w0: World, w1: World, domain: Seq<char>, gen: Ruleset, t: Duration, ported: Ruleset) -> bool { exists|v: Value| #[trigger] added(files(w0), files(w1), v) && bv_record(v, domain, gen, t, ported) }
/// the keys are different: by their length, first and last letter
#[verifier::opaque] pub open spec fn disc(s: Seq<char>) -> (nat, char, char) { (s.len(), s[0], s.last()) }
pub proof fn lemma_keys()
    ensures
        disc("can"@) == (3nat, 'c', 'n'),
        disc("cannot"@) == (6nat, 'c', 't'),
        disc("time"@) == (4nat, 't', 'e'),
        disc("derive_type"@) == (11nat, 'd', 'e'),
        disc("lhs"@) == (3nat, 'l', 's'),
        disc("lhs_rhs"@) == (7nat, 'l', 's'),
        disc("enumo_derives_baseline"@) == (22nat, 'e', 'e'),
        disc("baseline_derives_enumo"@) == (22nat, 'b', 'o'),
        disc("rules"@) == (5nat, 'r', 's'),
        disc("TYPE"@) == (4nat, 'T', 'E'),
        disc("spec_name"@) == (9nat, 's', 'e'),
        disc("baseline_name"@) == (13nat, 'b', 'e'),
        disc("loc"@) == (3nat, 'l', 'c'),
        disc("derivability"@) == (12nat, 'd', 'y'),
        disc("domain"@) == (6nat, 'd', 'n'),
        disc("direct_gen"@) == (10nat, 'd', 'n'),
        disc("from_bv4"@) == (8nat, 'f', '4'),
        disc("phase1"@) == (6nat, 'p', '1'),
        disc("phase2"@) == (6nat, 'p', '2'),
        disc("phase3"@) == (6nat, 'p', '3'),
{
    reveal(disc);
    reveal_strlit("can");
    reveal_strlit("cannot");
    reveal_strlit("time");
    reveal_strlit("derive_type");
    reveal_strlit("lhs");
    reveal_strlit("lhs_rhs");
    reveal_strlit("enumo_derives_baseline");
    reveal_strlit("baseline_derives_enumo");
    reveal_strlit("rules");
    reveal_strlit("TYPE");
    reveal_strlit("spec_name");
    reveal_strlit("baseline_name");
    reveal_strlit("loc");
    reveal_strlit("derivability");
    reveal_strlit("domain");
    reveal_strlit("direct_gen");
    reveal_strlit("from_bv4");
    reveal_strlit("phase1");
    reveal_strlit("phase2");
    reveal_strlit("phase3");
}
} // mod lg
use lg::*;
@type Phase
@raw
pub mod lp {
use super::*;
#[verifier::external_body] pub struct Fmt { x: u8 }
impl View for Fmt { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[derive(Debug)]
pub struct VErr;
impl Fmt { #[verifier::external_body] pub fn write_str(&mut self, t: &String) -> (r: Result<(), VErr>) ensures r is Ok ==> final(self)@ == old(self)@ + t@ { unimplemented!() } #[verifier::external_body] pub fn vwrite<T: VText>(&mut self, t: T) -> (r: Result<(), VErr>) ensures r is Ok ==> final(self)@ == old(self)@ + t.text() { unimplemented!() } }
/// a phase by how its rules are run, and their name
pub open spec fn phase_text(p: Phase) -> Seq<char> { (match p.scheduler { Scheduler::Simple(_) => "eqsat"@, Scheduler::Saturating(_) => "sat"@, Scheduler::Compress(_) => "compress"@ }) + " ("@ + p.rules_name@ + ")"@ }
impl VToString for Phase { open spec fn shown(&self) -> Seq<char> { phase_text(*self) } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
pub open spec fn ff_record(v: Value, p1: Phase, p2: Phase, p3: Phase, t: Duration, rs: Ruleset) -> bool {
    let m = jfields(v);
    &&& m.dom() =~= no_keys().insert("TYPE"@).insert("phase1"@).insert("phase2"@).insert("phase3"@).insert("time"@).insert("rules"@)
    &&& m["TYPE"@] == j_str("ff_phases"@) && m["phase1"@] == j_str(phase_text(p1)) && m["phase2"@] == j_str(phase_text(p2)) && m["phase3"@] == j_str(phase_text(p3)) && m["time"@] == j_secs(secs(t)) && m["rules"@] == j_strs(rule_texts(rs))
}
pub open spec fn logged_ff(w0: World, w1: World, p1: Phase, p2: Phase, p3: Phase, t: Duration, rs: Ruleset) -> bool { exists|v: Value| #[trigger] added(files(w0), files(w1), v) && ff_record(v, p1, p2, p3, t, rs) }
}
use lp::*;
@fn Limits::deriving
@props C24
@sig pub fn deriving() -> (r: Self)
@spec
    ensures r == deriving(),
@fn Phase::Display::fmt
@props C24
@flags impl=impl~Phase strlits
@sig pub fn fmt(&self, f: &mut Fmt) -> (r: Result<(), VErr>)
@spec
    ensures r is Ok ==> final(f)@ =~= old(f)@ + phase_text(*self),
@entry
    proof { reveal_strlit("eqsat"); reveal_strlit("sat"); reveal_strlit("compress"); reveal_strlit(" ("); reveal_strlit(")"); }
@fn count_lines
@props C24
@flags world
@sig pub fn count_lines(name: &String, vx_w: &mut World) -> (r: Option<usize>)
@spec
    ensures files(*final(vx_w)) == files(*old(vx_w)),
        r matches Some(n) ==> files(*old(vx_w)).dom().contains(recipe(name@)) && n == lines_of(files(*old(vx_w))[recipe(name@)]).len(),
@loop 0
    $acc == $i
@fn get_derivability
@props C24
@sig fn get_derivability(ruleset: &Ruleset, against: &Ruleset, derive_type: DeriveType) -> (r: Value)
@spec
    ensures derivability(r, *ruleset, *against, derive_type),
@entry
    broadcast use ax_obj;
    proof { lemma_keys(); }
@fn write_ff_phase
@props C24
@flags panics-ok world
@sig pub fn write_ff_phase(phase1: Phase, phase2: Phase, phase3: Phase, time: Duration, rules: &Ruleset, vx_w: &mut World)
@spec
    ensures logged_ff(*old(vx_w), *final(vx_w), phase1, phase2, phase3, time, *rules),
@entry
    broadcast use ax_obj;
    proof { lemma_keys(); }
@fn write_bv_derivability
@props C24
@flags panics-ok world
@sig pub fn write_bv_derivability(domain: &String, gen_rules: Ruleset, gen_time: Duration, ported_bv4_rules: Ruleset, vx_w: &mut World)
@spec
    ensures logged_bv(*old(vx_w), *final(vx_w), domain@, gen_rules, gen_time, ported_bv4_rules),
@entry
    broadcast use ax_obj;
    proof { lemma_keys(); }
@closure partition
@sig &Rule -> (res: bool)
@spec
    ensures res == judged(*vx_p0),
@end
@fn write_baseline
@props C24
@flags panics-ok world
@sig pub fn write_baseline(ruleset: &Ruleset, spec_name: &String, baseline: &Ruleset, baseline_name: &String, time: Duration, vx_w: &mut World)
@spec
    ensures logged_baseline(*old(vx_w), *final(vx_w), *ruleset, spec_name@, *baseline, baseline_name@, time),
@entry
    broadcast use {ax_obj, lemma_push_has, ax_mkstr_of};
    proof { lemma_keys(); }
@end
