package org.fg;
import mcs.Sched;
import java.util.*;

/* Several threads give up the same objects of class $F: every interleaving. */
public final class Race$F {
  static $F[] o;
  static void act(char c, int k) {
    try {
      if (c == 'D') o[k].delete();
      else if (c == 'F') o[k].finalize();
      else if (c == 'G') { Optional<Integer> x = Optional.empty(); }
    } catch (Throwable e) { throw new RuntimeException(e); }
  }
  /* a program: pairs like D0 F1 */
  static Runnable prog(String p) { return () -> { for (int i = 0; i + 1 < p.length(); i += 2) act(p.charAt(i), p.charAt(i + 1) - '0'); }; }
  public static void main(String[] a) throws Throwable {
    System.load(System.getProperty("fg.lib"));
    Trk.forget();
    String[] P = {"D0", "F0", "D0D1", "D1D0", "D1", "D0D0", "F0D0", "F1F0"};
    int[] use = {0, 0, Integer.parseInt(a[2]), Integer.parseInt(a[3]), 2};
    long runs = 0, longest = 0;
    int bad = 0;
    int maxt = Integer.parseInt(a[0]);
    for (int n = 2; n <= maxt; ++n) {
      if (n > 2) Sched.bound = Integer.parseInt(a[1]);
      for (int[] c : sets(use[n], n)) {
        int[] ch = new int[0];
        StringBuilder nm = new StringBuilder();
        for (int x : c) nm.append(nm.length() > 0 ? "||" : "").append(P[x]);
        long r0 = runs;
        boolean ok = true;
        while (ch != null && ok) {
          int base = (int) Trk.born();
          o = new $F[]{new $F(1), null};
          o[1] = $SECOND;
          Runnable[] pr = new Runnable[n];
          for (int i = 0; i < n; ++i) pr[i] = prog(P[c[i]]);
          int[][] tr;
          String err = null;
          tr = null;
          try { tr = Sched.run(pr, ch); } catch (RuntimeException e) { err = e.getMessage(); }
          ++runs;
          if (err == null) { String e = Trk.error(); if (!e.isEmpty()) err = e; }
          for (int k = 0; k < 2; ++k) { if (err == null) o[k].delete(); }
          if (err == null && Trk.live(base) != 0) err = "objects still alive at the end: " + Trk.live(base);
          if (err == null) { String e = Trk.error(); if (!e.isEmpty()) err = e; }
          if (err != null) {
            if (++bad <= 5) System.out.println("VIOL\tthreads\t" + err + "\tschedule " + Arrays.toString(ch) + " of " + nm);
            Trk.forget();
            ok = false;
            break;
          }
          longest = Math.max(longest, tr.length);
          ch = Sched.next(tr);
        }
        System.out.println("STATE\t" + nm + " " + (runs - r0));
      }
    }
    System.out.println("SAMPLE\t$F threads: " + runs + " schedules, the longest of " + longest + " decisions");
    System.out.println("STATS\t$F\tsteps=" + Sched.decisions + "\tseq=" + runs);
    System.out.flush();
    Runtime.getRuntime().halt(0);
  }
  static List<int[]> sets(int m, int n) {
    List<int[]> r = new ArrayList<>();
    int[] c = new int[n];
    rec(r, c, 0, 0, m);
    return r;
  }
  static void rec(List<int[]> r, int[] c, int at, int lo, int m) {
    if (at == c.length) { r.add(c.clone()); return; }
    for (int x = lo; x < m; ++x) { c[at] = x; rec(r, c, at + 1, x, m); }
  }
}
