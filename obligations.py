"""The harnesses: which functions each puts under contract, and which properties rest on it."""
import families
G = {}

def group(name, sections, fns, harnesses, assumes=()):
    G[name] = dict(sections=list(sections), fns=list(fns), harnesses=list(harnesses), assumes=list(assumes))

def h(name, props, tier="quick", bounded=None):
    """props: `C12+` rests on this harness in the thorough tier only"""
    return dict(name=name, props=[p.rstrip("+") for p in props.split()], bounded=bounded,
                quick=[p for p in props.split() if tier == "quick" and not p.endswith("+")])

# --- one attempt of an operation, by the depth at which the path ends -----------------------
ENDS = ["0a"] + [str(d) + e for d in range(1, 8) for e in "mal" if (d, e) != (7, "m")]
QUICK = {"0a", "1m", "1a", "1l", "2m", "2a", "2l", "7a", "7l"}
def t(e): return "quick" if e in QUICK else "thorough"
def mem(e): return "C15" if e in {"0a", "1m", "1l", "2m", "2l"} else "C15+"

WALK = ["the nodes of a path are abstract: their content beside the child looked up is unconstrained (DESIGN.md, 'Abstract paths')"]
group("get", ["walk"], ["RawCongee::get"],
      [h("tree::verif::walk::get_" + e, "C01 C12 " + mem(e), t(e)) for e in ENDS], WALK)
group("ins", ["walk"], ["RawCongee::insert_inner", "BaseNode::make_node", "BaseNode::drop_node", "AllocatedNode::into_note_ptr"],
      [h("tree::verif::walk::ins_" + e, "C01 C03 C06 C08 C10 C11 C12 C13 " + mem(e), t(e)) for e in ENDS], WALK)
group("cmp", ["walk"], ["RawCongee::compute_if_present_inner", "BaseNode::drop_node", "WriteGuard::mark_obsolete"],
      [h("tree::verif::walk::cmp_" + e, "C02 C03 C08 C11 C12 C13 " + mem(e), t(e)) for e in ENDS], WALK)

# --- the lock -------------------------------------------------------------------------------
LOCK = ["the 60-bit version counter of a node does not wrap round during one attempt"]
group("lock", ["lock"], ["BaseNode::read_lock", "BaseNode::read_lock_root", "BaseNode::read_lock_inner", "ReadGuard::check_version",
                         "ReadGuard::unlock", "ReadGuard::upgrade", "ConcreteReadGuard::*", "WriteGuard::mark_obsolete", "WriteGuard::drop",
                         "ConcreteWriteGuard::drop", "ReadGuard::into_typed"],
      [h("lock::verif::lock::" + x, "C03 C08 C10 C11 C12 C13 C15") for x in ("untyped", "typed", "access")], LOCK)
group("order", ["lock", "order"], ["the memory orderings of every access to the version word"],
      [h("lock::verif::order::order", "C11 C12")], LOCK)

# --- helpers of the walks ----------------------------------------------------------------------
group("prefix", ["prefix"], ["RawCongee::check_prefix", "RawCongee::check_prefix_not_match", "BaseNode::prefix", "BaseNode::new"],
      [h("tree::verif::prefix::check_prefix", "C01 C02 C03 C15"), h("tree::verif::prefix::check_prefix_not_match", "C01 C03 C15"),
       h("base_node::verif::prefix::new", "C01 C04 C06 C11 C12")])
group("down", ["prefix"], ["NodePtr::downcast", "NodePtr::from_payload", "NodePtr::from_node"],
      [h("tree::verif::prefix::downcast", "C01 C07 C15")])
group("wrap", ["wrap"], ["RawCongee::insert", "RawCongee::compute_or_insert", "RawCongee::compute_if_present"],
      [h("tree::verif::wrap::insert", "C01 C03 C10 C13"), h("tree::verif::wrap::compute_or_insert", "C01 C03 C10 C13"),
       h("tree::verif::wrap::compute_if_present", "C02 C03 C13")],
      ["the retry loops are checked for three rounds, of which the third, starting from an arbitrary state of the back-off, stands for every later one"])
group("range", ["wrap"], ["RawCongee::range"], [h("tree::verif::wrap::range", "C04 C05")],
      ["the retry loops are checked for three rounds, of which the third, starting from an arbitrary state of the back-off, stands for every later one"])
group("backoff", ["wrap"], ["Backoff::spin", "backoff"], [h("utils::verif::wrap::backoff", "C15")])
group("grow", ["walk", "grow"], ["BaseNode::insert_grow", "BaseNode::insert_and_unlock"],
      [h("base_node::verif::grow::insert_grow", "C01 C06 C08 C10 C11 C12 C13"), h("base_node::verif::grow::dispatch", "C01 C06 C08 C10 C11 C12 C13 C15")])
group("alloc", ["alloc"], ["BaseNode::make_node", "BaseNode::drop_node", "BaseNode::node_layout", "Node48::init_empty", "AllocatedNode::drop", "DefaultAllocator::allocate", "DefaultAllocator::deallocate"],
      [h("base_node::verif::alloc::" + x, "C01 C06 C08 C10 C11 C15") for x in ("n4", "n16", "n256")]
      + [h("base_node::verif::alloc::n48", "C06 C08 C15"), h("base_node::verif::alloc::oom", "C08 C10 C15"),
         h("verif::alloc::default_allocator", "C08 C10 C15")])

# --- range scans -------------------------------------------------------------------------------
group("bound", ["prefix", "bound"], ["RangeScan::check_prefix_compare", "RangeScan::check_prefix_equals", "RangeScan::is_valid_key_pair", "RangeScan::new",
                                     "KeyTracker::*", "KeyTracker::append_prefix"],
      [h("range_scan::verif::bound::interval", "C04"), h("utils::verif::bound::key_tracker", "C04 C07 C15"), h("utils::verif::bound::append_prefix", "C04 C12")]
      + [h("range_scan::verif::bound::%s_%d" % (f, i), "C04 C15" if i in (0, 6) else "C04 C15+") for f in ("compare", "equals") for i in range(8)])
group("write_result", ["prefix", "bound"], ["RangeScan::write_result"],
      [h("range_scan::verif::bound::write_result", "C04 C05 C15", bounded="result buffers of at most 4 entries")])
SCANS = ["two keys of the tree at a time: the children that lie on neither path are left out of an iteration (DESIGN.md, 'Traversals')"]
def few(p, s): return len(p) <= 2 and s in (0, 1)
def scans(kind, fns, extra=()):
    group("scan_" + kind.lower(), ["prefix", "bound", "scan"], fns,
          [h("range_scan::verif::scan::" + n, "C04 C05 C12%s C15%s" % (("", "") if few(p, s) else ("+", "+")), families.tier(n)) for n, p, s in families.SCAN[kind]]
          + [h("range_scan::verif::scan::" + n, "C04 C05 C12+ C15+ C07+") for n in extra], SCANS)
scans("Scan", ["RangeScan::scan"], ["one_07", "two_07_0", "two_07_1"])
scans("Start", ["RangeScan::find_start"])
scans("End", ["RangeScan::find_end"])
scans("Copy", ["RangeScan::copy_node_recursive"])

group("dfs", ["scan", "dfs"], ["RawCongee::dfs_visitor_slow", "RawCongee::recursive_dfs"],
      [h("tree::verif::dfs::" + n, "C09 C14 C12%s C08%s C07+ C15%s" % (("",) * 3 if few(p, s) else ("+",) * 3), families.tier(n)) for n, p, s in families.SCAN["Dfs"]], SCANS)

# --- the public handles ----------------------------------------------------------------------
group("empty", ["api"], ["RawCongee::is_empty", "RawCongee::value_count"],
      [h("tree::verif::api::is_empty", "C14"), h("tree::verif::api::value_count", "C14"), h("verif::api::is_empty", "C14 C07")])
group("api", ["api"], ["Congee::{get,insert,remove,compute_if_present,compute_or_insert,compare_exchange}", "U64Congee::{get,insert,remove,compute_if_present,compute_or_insert,compare_exchange}"],
      [h("verif::api::get", "C01 C07"), h("verif::api::insert", "C01 C07 C10"), h("verif::api::remove", "C02 C07"),
       h("verif::api::compute_if_present", "C03 C07"), h("verif::api::compute_or_insert", "C03 C07 C10"),
       h("verif::api::compare_exchange", "C03 C07")])
group("apirange", ["api"], ["Congee::range", "U64Congee::range"],
      [h("verif::api::range", "C04 C05 C07", bounded="result buffers of at most 3 entries")])
group("drain", ["api"], ["DropVisitor::visit_payload", "DropVisitor::post_visit_sub_node", "Congee::new_with_drainer"],
      [h("tree::verif::api::drop_visitor", "C09"), h("verif::api::drain", "C07 C09")])

group("life", ["api", "life"], ["RawCongee::new", "RawCongee::drop", "DropVisitor::visit_payload", "DropVisitor::post_visit_sub_node"],
      [h("tree::verif::life::drop_tree", "C09 C08 C15"), h("tree::verif::life::new", "C01 C09 C14 C15")],
      ["crossbeam_epoch::pin gives a guard"])
group("stats", ["api", "life"], ["RawCongee::stats", "NodeStats::fmt"],
      [h("stats::verif::life::kv_pairs", "C14"), h("stats::verif::life::shown", "C14")],
      ["StatsVisitor keeps its per-level counts in a HashMap and is replaced by its traversal contract", "formatting of integers and floats by core::fmt"])

# --- the nodes as finite maps -------------------------------------------------------------------
def node(m, T, ops, slow=()):
    for op, props in ops:
        group("%s_%s" % (m, op), ["node"], ["%s::%s" % (T, op)],
              [h("%s::verif::node::%s" % (m, op), props, "quick" if op not in slow else "thorough")])
    return
MAP = [("get", "C01 C02 C03 C06 C12 C15"), ("insert", "C01 C03 C06 C10 C11 C15"), ("change", "C01 C03 C06 C11 C15"),
       ("remove", "C02 C06 C08 C11 C15"), ("full", "C01 C06 C15")]
node("node_4", "Node4", MAP + [("copy_to", "C01 C06 C08 C15"), ("torn", "C15 C12"), ("next", "C04 C06 C09 C14")])
node("node_16", "Node16", MAP + [("copy_to", "C01 C06 C08 C15"), ("torn", "C15 C12"), ("raced", "C15 C12"), ("next", "C04 C06 C09 C14")])
node("node_48", "Node48", MAP + [("init", "C01 C06 C15"), ("torn", "C15 C12"), ("first", "C04 C09 C14 C15+")])
node("node_256", "Node256", MAP + [("first", "C04 C09 C14 C15+")])
for m, T in (("node_48", "Node48"), ("node_256", "Node256")):
    group(m + "_copy_to", ["node"], [T + "::copy_to"], [h(m + "::verif::node::copy_to", "C06 C01+ C08+ C15+")],
          ["copying a large node only moves the words of its children: one distinct word per slot stands for any"])
    group(m + "_next", ["node"], [T + "Iter::next"],
          [h(m + "::verif::node::next", "C04 C06+ C09+ C14+ C15+", bounded="the next child, or the end, at most 16 bytes further on; from the first byte any distance (`first`)")],
          ["an iteration only moves the words of the children: one distinct word per slot stands for any"])

