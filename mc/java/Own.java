package org.fg;
import java.util.*;

/* Ownership model of one storage flavour ($F) run in lock step with the generated classes. */
public final class Own$F {
  static final boolean MOVE = $MOVE, COPY = $COPY, SHARED = $SHARED;
  static final int MAXREF = $MAXREF, NS = 2;

  static final class Op { final String name; final int k, i; Op(String n, int k, int i) { name = n; this.k = k; this.i = i; } }
  static final int NEW = 0, DEL = 1, DROP = 2, ALIAS = 3, GET = 4, SET = 5, TAKE = 6, IDENT = 7, OPT = 8, OPTN = 9, RESOK = 10, RESERR = 11, PUT = 12, GRAB = 13, MAKE = 14,
    RF = 15, RM = 16, OF = 17, OFN = 18, TWO = 19, REFVAL = 20, ARR = 21, VOUT = 22, VID = 23, KONS = 24, KFAIL = 25, KOK = 26, CLONE = 27, EAT = 28, SPAWN = 29, SHARE = 30, METHERR = 31, RSP = 32, MAKERES = 33, THREAD = 34, SELFERR = 35;
  static final String[] NAMES = {"construct", "delete", "collect", "alias_to_other", "call", "call_mut", "pass_by_value", "through_by_value", "through_option", "through_option_null", "through_result_ok", "through_result_err", "put_into_rust", "take_from_rust", "return_by_value",
    "pass_ref", "pass_mut_ref", "pass_option_ref", "pass_option_ref_null", "pass_two_by_value", "pass_ref_and_value", "pass_array", "return_array", "through_array", "into_constructor", "into_failing_constructor", "into_fallible_constructor", "clone", "method_taking_other", "method_returning_new", "share", "failing_method_taking_other", "pass_storage_ref", "return_result", "delete_in_other_thread", "failing_method"};
  static final int[] OPS = {$OPS};
  static final List<Op> ops = new ArrayList<>();
  static { for (int k : OPS) { int n = k == TWO || k == REFVAL || k == VOUT ? 1 : k == ARR || k == VID ? 5 : 2; for (int i = 0; i < n; ++i) ops.add(new Op(NAMES[k] + (n == 1 ? "" : "(" + i + ")"), k, i)); } }

  static final class Fail extends RuntimeException { Fail(String s) { super(s); } }

  // ---- the model
  int[] slot = {-1, -1};                 // Java object of the slot
  ArrayList<Integer> jo = new ArrayList<>();    // Rust object of a Java object, -1: emptied
  ArrayList<Integer> val = new ArrayList<>();   // value of a Rust object
  ArrayList<Integer> refs = new ArrayList<>();  // holders
  ArrayList<Integer> vault = new ArrayList<>();
  int nval = 0;
  // ---- the real thing
  $F[] s = new $F[NS];
  ArrayList<Object> keep = new ArrayList<>();
  int base = (int) Trk.born();

  int newR(int v) { val.add(v); refs.add(1); return val.size() - 1; }
  int newJ(int r) { jo.add(r); return jo.size() - 1; }
  void drop(int r) { refs.set(r, refs.get(r) - 1); }
  void empty(int j) { jo.set(j, -1); }
  boolean has(int i) { return slot[i] >= 0; }
  boolean live(int i) { return has(i) && jo.get(slot[i]) >= 0; }
  int rob(int i) { return jo.get(slot[i]); }
  int v(int i) { return val.get(rob(i)); }
  int nrefs() { int n = 0; for (int r : refs) n += r; return n; }
  /* what a by-value argument hands to Rust: the Rust object that now has one more (or the moved) holder */
  int byval(int i) {
    int r = rob(i);
    if (COPY) return newR(val.get(r));
    if (SHARED) { refs.set(r, refs.get(r) + 1); return r; }
    empty(slot[i]);
    return r;
  }
  int byopt(int i) { int r = rob(i); empty(slot[i]); return r; }
  void put(int i, $F o, int r) throws Throwable {
    release(i);
    s[i] = o; keep.add(o); slot[i] = newJ(r);
  }
  void release(int i) throws Throwable {
    if (!has(i)) return;
    boolean aliased = false;
    for (int k = 0; k < NS; ++k) if (k != i && slot[k] == slot[i]) aliased = true;
    if (!aliased) { s[i].finalize(); if (live(i)) { int r = rob(i); empty(slot[i]); drop(r); } }
    s[i] = null; slot[i] = -1;
  }
  static void eq(String what, Object got, Object want) { if (!Objects.equals(got, want)) throw new Fail(what + ": got " + got + ", expected " + want); }

  boolean enabled(Op o) {
    int i = o.i, j = 1 - i;
    switch (o.k) {
      case NEW: return !has(i) && nrefs() < MAXREF;
      case DEL: case DROP: return has(i);
      case THREAD: return live(i);
      case ALIAS: return has(i) && !has(j);
      case GET: case SET: case TAKE: case RF: case RM: case OF: case RESERR: case KONS: case KFAIL: case KOK: case RSP: case SELFERR: return live(i);
      case IDENT: case OPT: case RESOK: return live(i);
      case OPTN: case OFN: return i == 0;
      case PUT: return live(i) && vault.size() < 2 && nrefs() < MAXREF + 1;
      case GRAB: return i == 0 || vault.size() > 0;
      case MAKE: case MAKERES: return nrefs() < MAXREF;
      case TWO: return live(0) && live(1) && slot[0] != slot[1];
      case EAT: case METHERR: case REFVAL: return live(0) && live(1) && slot[0] != slot[1] && rob(0) != rob(1);
      case ARR: case VID: return o.i == 0 || o.i == 1 && live(0) || o.i == 2 && live(1) || o.i == 3 && live(0) && live(1) || o.i == 4 && live(0);
      case VOUT: return true;
      case CLONE: case SPAWN: case SHARE: return live(i) && nrefs() < MAXREF;
    }
    throw new Error();
  }
  int[] pick(int m) { return m == 0 ? new int[]{} : m == 1 ? new int[]{0} : m == 2 ? new int[]{1} : m == 3 ? new int[]{0, 1} : new int[]{0, 0}; }

  void step(Op o) throws Throwable {
    int i = o.i, j = 1 - i;
    switch (o.k) {
      case NEW: { int n = ++nval; $F x = new $F(n); put(i, x, newR(n)); break; }
      case DEL: s[i].delete(); if (live(i)) { drop(rob(i)); empty(slot[i]); } break;
      case THREAD: { final $F x = s[i]; Thread t = new Thread(() -> x.delete()); t.start(); t.join(); drop(rob(i)); empty(slot[i]); break; }
      case DROP: release(i); break;
      case ALIAS: s[j] = s[i]; slot[j] = slot[i]; break;
      case GET: eq("value", s[i].get(), v(i)); break;
      case SET: { int n = ++nval; s[i].set(n); val.set(rob(i), n); break; }
      //OP take
      case TAKE: { int w = v(i); $F x = s[i]; int r = byval(i); eq("take", Ops.take(x), w); drop(r); break; }
      case IDENT: { $F x = s[i]; int r = byval(i); put(i, Ops.ident(x), r); break; }
      case PUT: { $F x = s[i]; int r = byval(i); Ops.put(x); vault.add(r); break; }
      case RESOK: { $F x = s[i]; int r = byval(i); put(i, Ops.res(x, true), r); break; }
      case RESERR: { int w = v(i); $F x = s[i]; int r = byval(i); try { Ops.res(x, false); throw new Fail("no exception"); } catch (Exception e) { if (e instanceof Fail) throw e; eq("exception", e.getMessage(), "err " + w); } drop(r); break; }
      case TWO: { int w = v(0); $F x = s[0], y = s[1]; int a = byval(0), b = byval(1); put(0, Ops.two(x, y), b); drop(a); break; }
      case REFVAL: { int w = v(0) * 1000 + v(1); $F x = s[0], y = s[1]; int b = byval(1); eq("refval", Ops.refval(x, y), w); drop(b); break; }
      case KONS: { int w = v(i); $F x = s[i]; int r = byval(i); K$F k = new K$F(x); eq("constructed", k.get(), w); k.delete(); k.delete(); drop(r); break; }
      case KOK: { int w = v(i); $F x = s[i]; int r = byval(i); G$F k = new G$F(x, true); eq("constructed", k.get(), w); k.finalize(); k.delete(); drop(r); break; }
      case KFAIL: { int w = v(i); $F x = s[i]; int r = byval(i); try { new G$F(x, false); throw new Fail("no exception"); } catch (Exception e) { if (e instanceof Fail) throw e; eq("exception", e.getMessage(), "no " + w); } drop(r); break; }
      case EAT: { int w = v(i) * 1000 + v(j); $F x = s[i], y = s[j]; int b = byval(j); eq("eat", x.eat(y), w); drop(b); break; }
      case METHERR: { int w = v(i) * 1000 + v(j); $F x = s[i], y = s[j]; int b = byval(j); try { x.may(y, false); throw new Fail("no exception"); } catch (Exception e) { if (e instanceof Fail) throw e; eq("exception", e.getMessage(), "may " + w); } drop(b); break; }
      //END
      //OP opt
      case OPT: { $F x = s[i]; int r = byopt(i); Optional<$F> q = Ops.opt(x); put(i, q.get(), r); break; }
      case OPTN: { Optional<$F> q = Ops.opt(null); eq("null option", q.isPresent(), false); break; }
      //END
      //OP grab
      case GRAB: { Optional<$F> q = Ops.grab(); eq("present", q.isPresent(), vault.size() > 0); if (q.isPresent()) { put(i, q.get(), vault.remove(vault.size() - 1)); } break; }
      //END
      case MAKE: { int n = ++nval; put(i, Ops.make(n), newR(n)); break; }
      case MAKERES: { int n = ++nval; put(i, Ops.makeres(n, true), newR(n)); try { Ops.makeres(n, false); throw new Fail("no exception"); } catch (Exception e) { if (e instanceof Fail) throw e; eq("exception", e.getMessage(), "nores"); } break; }
      case RF: eq("ref", Ops.rf(s[i]), v(i)); break;
      //OP rm
      case RM: { int n = ++nval; Ops.rm(s[i], n); val.set(rob(i), n); break; }
      //END
      //OP of
      case OF: eq("option ref", Ops.of(s[i]), v(i)); break;
      case OFN: eq("option ref null", Ops.of(null), -1); break;
      //END
      //OP arr
      case ARR: { int[] p = pick(o.i); $F[] a = new $F[p.length]; int w = 0; for (int k = 0; k < p.length; ++k) { a[k] = s[p[k]]; w = w * 1000 + v(p[k]); drop(newR(v(p[k]))); } eq("array", Ops.arr(a), w); break; }
      case VID: { int[] p = pick(o.i); $F[] a = new $F[p.length]; int[] r = new int[p.length]; for (int k = 0; k < p.length; ++k) { a[k] = s[p[k]]; r[k] = newR(v(p[k])); } $F[] b = Ops.vid(a); eq("length", b.length, a.length); back(b, r); break; }
      //END
      //OP vout
      case VOUT: { $F[] a = Ops.vout(); eq("length", a.length, vault.size()); int[] r = new int[a.length]; for (int k = 0; k < a.length; ++k) r[k] = vault.get(k); vault.clear(); back(a, r); break; }
      //END
      //OP clone
      case CLONE: { int w = v(i); put(j, s[i].clone(), newR(w)); break; }
      //END
      case SPAWN: { int w = v(i); put(j, s[i].spawn(), newR(w)); break; }
      case SELFERR: { int w = v(i); try { s[i].fail(); throw new Fail("no exception"); } catch (Exception e) { if (e instanceof Fail) throw e; eq("exception", e.getMessage(), "fail " + w); } break; }
      //OP rsp
      case RSP: eq("storage ref", Ops.rsp(s[i]), v(i)); break;
      case SHARE: { int r = rob(i); refs.set(r, refs.get(r) + 1); put(j, Ops.share(s[i]), r); break; }
      //END
      default: throw new Error();
    }
  }
  void back($F[] a, int[] r) throws Throwable {
    for (int k = 0; k < a.length; ++k) { if (k < NS) put(k, a[k], r[k]); else { a[k].delete(); drop(r[k]); } }
  }
  void verify() {
    String e = Trk.error();
    if (!e.isEmpty()) throw new Fail("Rust objects: " + e);
    long m = 0;
    for (int r = 0; r < refs.size(); ++r) if (refs.get(r) > 0) m |= 1L << (r % 64);
    eq("number of objects ever created", (int) Trk.born() - base, refs.size());
    long got = Trk.live(base);
    if (got != m) throw new Fail("living Rust objects: got " + set(got) + ", expected " + set(m));
    for (int i = 0; i < NS; ++i) if (live(i)) { eq("identity of slot " + i, (int) s[i].id(), base + rob(i)); eq("value of slot " + i, s[i].get(), v(i)); }
  }
  static String set(long m) { StringBuilder b = new StringBuilder("{"); for (int i = 0; i < 64; ++i) if ((m >> i & 1) != 0) b.append(b.length() > 1 ? "," : "").append(i); return b.append("}").toString(); }
  String key() {
    HashMap<Integer, Integer> jn = new HashMap<>(), rn = new HashMap<>();
    StringBuilder b = new StringBuilder();
    for (int i = 0; i < NS; ++i) {
      if (!has(i)) { b.append("- "); continue; }
      Integer q = jn.get(slot[i]);
      if (q == null) { q = jn.size(); jn.put(slot[i], q); }
      b.append("j").append(q);
      if (live(i)) b.append("r").append(num(rn, rob(i)));
      b.append(" ");
    }
    b.append("|");
    for (int r : vault) b.append(num(rn, r)).append(",");
    return b.toString();
  }
  static int num(HashMap<Integer, Integer> m, int r) { Integer q = m.get(r); if (q == null) { q = m.size(); m.put(r, q); } return q; }

  static long steps = 0, seqs = 0;
  static int bad = 0;
  static void viol(String k, String msg, int[] h) { if (++bad <= 8) System.out.println("VIOL\t" + k + "\t" + msg.replace('\t', ' ').replace('\n', ' ') + "\t" + text(h)); }
  static String text(int[] h) { StringBuilder b = new StringBuilder(); for (int x : h) b.append(b.length() > 0 ? " ; " : "").append(ops.get(x).name); return b.toString(); }
  /* runs one history; returns the state it ends in or null on a violation */
  static Own$F run(int[] h) throws Throwable {
    long blocks = Trk.blocks();
    Own$F w = new Own$F();
    ++seqs;
    int at = 0;
    String where = "";
    try {
      for (; at < h.length; ++at) { where = ops.get(h[at]).name; ++steps; w.step(ops.get(h[at])); w.verify(); }
      String key = w.key();
      where = "end";
      for (int i = 0; i < NS; ++i) if (w.s[i] != null) { w.s[i].delete(); w.s[i].finalize(); w.s[i] = null; }
      w.keep.clear();
      Ops.clear();
      String e = Trk.error();
      if (!e.isEmpty()) throw new Fail("Rust objects: " + e);
      if (Trk.live(w.base) != 0) throw new Fail("objects still alive after everything was given up: " + set(Trk.live(w.base)));
      if (Trk.blocks() != blocks) throw new Fail("memory blocks: " + blocks + " before, " + Trk.blocks() + " after");
      w.kk = key;
      return w;
    } catch (Fail f) {
      viol(where, f.getMessage(), Arrays.copyOf(h, Math.min(at + 1, h.length)));
      Trk.forget();
    } catch (RuntimeException f) {
      viol(where, "unexpected " + f, Arrays.copyOf(h, Math.min(at + 1, h.length)));
      Trk.forget();
    }
    for (int i = 0; i < NS; ++i) w.s[i] = null;
    Ops.clear();
    return null;
  }
  String kk;
  static void dfs(int[] h, int depth) throws Throwable {
    // enabledness depends on the model only: run the history and ask
    Own$F w = run(h);
    if (w == null || h.length == depth) return;
    for (int x = 0; x < ops.size(); ++x) if (w.enabled2(ops.get(x))) { int[] n = Arrays.copyOf(h, h.length + 1); n[h.length] = x; dfs(n, depth); }
  }
  boolean enabled2(Op o) { return enabled(o); }

  public static void main(String[] a) throws Throwable {
    System.load(System.getProperty("fg.lib"));
    if (a[0].equals("probe")) { OwnP$F.run(a[1], a[2]); return; }
    int depth = Integer.parseInt(a[0]), shard = Integer.parseInt(a[1]), shards = Integer.parseInt(a[2]);
    // once before the blocks are counted: what is initialised on first use
    for (int x = 0; x < ops.size(); ++x) warm(x);
    bad = 0;
    System.out.flush();
    // every history up to the depth
    Own$F w0 = run(new int[0]);
    int n = 0;
    if (w0 != null)
      for (int x = 0; x < ops.size(); ++x) {
        if (!w0.enabled(ops.get(x))) continue;
        Own$F w1 = run(new int[]{x});
        if (w1 == null) continue;
        for (int y = 0; y < ops.size(); ++y) if (w1.enabled(ops.get(y)) && n++ % shards == shard) dfs(new int[]{x, y}, depth);
      }
    // one history into every reachable state, every operation out of it
    HashMap<String, int[]> seen = new HashMap<>();
    ArrayDeque<int[]> q = new ArrayDeque<>();
    seen.put(w0 == null ? "" : w0.kk, new int[0]);
    q.add(new int[0]);
    int cnt = 0;
    boolean dead = w0 == null;
    while (!q.isEmpty() && !dead && bad < 8) {
      int[] h = q.poll();
      Own$F w = run(h);
      if (w == null) continue;
      boolean mine = cnt++ % shards == shard;
      for (int x = 0; x < ops.size(); ++x) {
        if (!w.enabled(ops.get(x))) continue;
        int[] g = Arrays.copyOf(h, h.length + 1);
        g[h.length] = x;
        Own$F t = run(g);
        if (t != null && !seen.containsKey(t.kk)) { seen.put(t.kk, g); q.add(g); }
      }
      if (mine) System.out.println("STATE\t" + w.kk);
    }
    System.out.println("SAMPLE\t" + "$F: " + text(seen.values().stream().max((p, r) -> p.length - r.length).get()));
    System.out.println("STATS\t$F\tsteps=" + steps + "\tseq=" + seqs);
    System.out.flush();
    System.exit(0);
  }
  static void warm(int x) throws Throwable {
    int nw = -1;
    for (int k = 0; k < ops.size() && nw < 0; ++k) if (ops.get(k).k == NEW) nw = k;
    for (int[] h : new int[][]{{x}, {nw, x}, {nw, nw + 1, x}}) {
      Own$F w = new Own$F();
      try { for (int y : h) if (w.enabled(ops.get(y))) w.step(ops.get(y)); } catch (RuntimeException e) { }
      for (int i = 0; i < NS; ++i) if (w.s[i] != null) w.s[i].delete();
      Ops.clear();
    }
    Trk.forget();
  }
}
