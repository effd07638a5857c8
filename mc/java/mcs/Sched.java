package mcs;
import java.util.*;
import java.util.concurrent.Semaphore;

/* mode 0: points do nothing but monitors are real; mode 1: a baton goes from point to point, the choices are enumerated;
   mode 2: the collector runs at the k-th point of the test thread */
public final class Sched {
  public static volatile int mode = 0;
  // ---- mode 2
  public static Thread test;
  public static int at, target;
  // ---- mode 1: the running thread decides who goes on; a hand-over happens only when somebody else was chosen
  static final class T extends Thread {
    final Semaphore go = new Semaphore(0);
    Object wants; boolean done; Throwable err; Runnable prog;
    final int i;
    T(int i) { this.i = i; setDaemon(true); }
    public void run() {
      for (;;) {
        go.acquireUninterruptibly();
        err = null;
        try { prog.run(); } catch (Throwable e) { err = e; }
        done = true;
        decide(this);
      }
    }
  }
  static final ArrayList<T> pool = new ArrayList<>();
  static int n;
  static Semaphore over;
  static boolean deadlock;
  static int[] choices;
  static ArrayList<int[]> trace;
  static int cur, pre;
  static final IdentityHashMap<Object, T> owner = new IdentityHashMap<>();
  static final IdentityHashMap<Object, Integer> depth = new IdentityHashMap<>();
  public static long decisions = 0;
  public static int bound = 1 << 30;   // preemptions

  public static void point() {
    if (mode == 2) {
      if (Thread.currentThread() == test && at++ == target) { System.gc(); System.runFinalization(); System.gc(); System.runFinalization(); }
      return;
    }
    if (mode != 1) return;
    T t = me();
    if (t != null) decide(t);
  }
  static T me() { Thread t = Thread.currentThread(); return t instanceof T ? (T) t : null; }
  /* picks who goes on; returns when the caller may (never for a thread that has ended) */
  static void decide(T self) {
    final boolean wait = self != null && !self.done;   // before anyone else can start the next run
    int m = 0, alive = 0;
    int[] en = new int[n];
    for (int i = 0; i < n; ++i) {
      T t = pool.get(i);
      if (t.done) continue;
      ++alive;
      if (t.wants != null) { T w = owner.get(t.wants); if (w != null && w != t) continue; }
      en[m++] = i;
    }
    if (m == 0) { deadlock = alive > 0; over.release(); if (wait) self.go.acquireUninterruptibly(); return; }
    // the running thread first: taking another one while it could go on is a preemption
    int ce = -1;
    for (int k = 0; k < m; ++k) if (en[k] == cur) ce = k;
    if (ce > 0) { for (int k = ce; k > 0; --k) en[k] = en[k - 1]; en[0] = cur; }
    int step = trace.size(), c = step < choices.length ? choices[step] : 0;
    trace.add(new int[]{c, ce >= 0 && pre >= bound ? 1 : m});
    if (ce >= 0 && c > 0) ++pre;
    cur = en[c];
    ++decisions;
    T next = pool.get(cur);
    if (next == self) return;
    next.go.release();
    if (wait) self.go.acquireUninterruptibly();
  }
  public static void enter(Object o) {
    T t = me();
    if (t == null) { point(); monitors.get(o).lock(); return; }   // also the JVM's own finalizer thread, whatever the mode
    t.wants = o;
    decide(t);
    t.wants = null;
    owner.put(o, t);
    depth.merge(o, 1, Integer::sum);
  }
  public static void exit(Object o) {
    T t = me();
    if (t == null) { monitors.get(o).unlock(); return; }
    if (owner.get(o) != t) throw new IllegalMonitorStateException();
    if (depth.merge(o, -1, Integer::sum) == 0) { owner.remove(o); depth.remove(o); }
  }
  /* stand-in for object monitors outside the controlled mode */
  static final class Mon {
    final WeakHashMap<Object, Object> none = null;
    private final java.util.concurrent.locks.ReentrantLock all = new java.util.concurrent.locks.ReentrantLock();
    java.util.concurrent.locks.ReentrantLock get(Object o) { return all; }
  }
  static final Mon monitors = new Mon();

  /* runs the threads under one schedule: choices[] first, then always the first enabled one; returns the branching seen */
  public static int[][] run(Runnable[] progs, int[] ch) {
    owner.clear(); depth.clear();
    over = new Semaphore(0);
    deadlock = false;
    choices = ch;
    trace = new ArrayList<>();
    cur = -1; pre = 0;
    n = progs.length;
    while (pool.size() < n) { T t = new T(pool.size()); pool.add(t); t.start(); }
    for (int i = 0; i < n; ++i) { T t = pool.get(i); t.done = false; t.wants = null; t.err = null; t.prog = progs[i]; }
    mode = 1;
    decide(null);
    over.acquireUninterruptibly();
    mode = 0;
    if (deadlock) { pool.clear(); throw new RuntimeException("deadlock"); }
    for (int i = 0; i < n; ++i) if (pool.get(i).err != null) throw new RuntimeException("a thread ended with " + pool.get(i).err);
    return trace.toArray(new int[0][]);
  }
  /* next choice vector of a depth-first enumeration, or null */
  public static int[] next(int[][] trace) {
    int k = trace.length - 1;
    while (k >= 0 && trace[k][0] + 1 >= trace[k][1]) --k;
    if (k < 0) return null;
    int[] c = new int[k + 1];
    for (int i = 0; i < k; ++i) c[i] = trace[i][0];
    c[k] = trace[k][0] + 1;
    return c;
  }
}
