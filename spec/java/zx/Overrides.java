package zx;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;
import java.util.*;

/**
 * TLC operator overrides: fast evaluation of ZXSem!Value and CircSem!RunCirc.
 * The definitions are the TLA+ ones in ZXSem.tla and CircSem.tla; this class
 * only speeds TLC up, exactly as TLC's own standard-module overrides do.  Every
 * check re-evaluates a sample of its events with the overrides switched off
 * and compares the verdicts.
 */
public class Overrides implements ITLCOverrides {
  @Override public Class[] get() { return new Class[] { Overrides.class }; }

  static final int P = 33601, N = 33600, G = 29;
  static final int[] PH = new int[N];
  static final int IS2, S2, HALF, I;
  static {
    PH[0] = 1;
    for (int k = 1; k < N; k++) PH[k] = PH[k-1] * G % P;
    S2 = (PH[N/8] + PH[N - N/8]) % P;
    IS2 = inv(S2); HALF = inv(2); I = PH[N/4];
  }
  static int mul(int a, int b) { return (int)((long)a * b % P); }
  static int mod(long a) { return (int)(((a % P) + P) % P); }
  static int pow(int a, long k) { int r = 1; while (k > 0) { if ((k & 1) == 1) r = mul(r, a); a = mul(a, a); k >>= 1; } return r; }
  static int inv(int a) { return pow(a, P - 2); }
  static int ph(int k) { return PH[((k % N) + N) % N]; }
  static int s2pow(int k) { return k >= 0 ? pow(S2, k) : pow(IS2, -k); }

  static Value fld(Value r, String f) {
    RecordValue rv = (RecordValue) r.toRcd();
    UniqueString u = UniqueString.uniqueStringOf(f);
    for (int i = 0; i < rv.names.length; i++) if (rv.names[i].equals(u)) return rv.values[i];
    throw new RuntimeException("no field " + f);
  }
  static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }
  static int num(Value v) { return ((IntValue) v).val; }
  static int[] ints(Value v) { Value[] e = seq(v); int[] r = new int[e.length]; for (int i = 0; i < r.length; i++) r[i] = num(e[i]); return r; }
  static String str(Value v) { return ((StringValue) v).val.toString(); }
  static boolean bool(Value v) { return ((BoolValue) v).val; }

  static int ring(Value v) {
    int[] r = ints(v);
    int w = PH[N/8], w2 = mul(w, w), w3 = mul(w2, w);
    long s = (long) mod(r[0]) + mul(mod(r[1]), w) + mul(mod(r[2]), w2) + mul(mod(r[3]), w3);
    return mul((int)(s % P), pow(HALF, r[4]));
  }

  static int scalar(Value s) {
    if (bool(fld(s, "zero"))) return 0;
    int x = mul(s2pow(num(fld(s, "p2"))), ph(num(fld(s, "ph"))));
    x = mul(x, ring(fld(s, "ff")));
    for (int k : ints(fld(s, "nodes"))) x = mul(x, (1 + ph(k)) % P);
    return x;
  }

  static boolean spider(int t) { return t == 0 || t == 1 || t == 2 || t == 6; }

  @TLAPlusOperator(identifier = "Value", module = "ZXSem", warn = false)
  public static Value value(final Value g, final Value r) {
    return IntValue.gen(diagram(g, ints(r)));
  }

  static int diagram(Value g, int[] r) {
    final int n = num(fld(g, "n"));
    final int[] ty = ints(fld(g, "ty")), phs = ints(fld(g, "ph"));
    final Value[] lb = seq(fld(g, "lb")), edv = seq(fld(g, "ed"));
    final int[] inp = ints(fld(g, "inp")), out = ints(fld(g, "out")), ord0 = ints(fld(g, "ord"));
    final int E = edv.length, M = n + 2 * E + 1;
    List<int[]> bins = new ArrayList<>();            // {isH, x, y}
    Map<Integer, List<Integer>> legs = new TreeMap<>();
    for (int v = 1; v <= n; v++) if (!spider(ty[v-1])) legs.put(v, new ArrayList<>());
    int nh = 0;
    for (int e = 1; e <= E; e++) {
      int[] ed = ints(edv[e-1]);
      int u = ed[0], v = ed[1];
      boolean had = (((ed[2] == 2 ? 1 : 0) + (ty[u-1] == 2 ? 1 : 0) + (ty[v-1] == 2 ? 1 : 0)) % 2) == 1;
      boolean su = spider(ty[u-1]), sv = spider(ty[v-1]);
      int a = n + 2*e - 1, b = n + 2*e;
      if (su && sv) { bins.add(new int[]{had ? 1 : 0, u, v}); if (had) nh++; }
      else if (su || sv) {
        int s = su ? u : v, x = su ? v : u;
        if (had) { bins.add(new int[]{1, s, a}); nh++; legs.get(x).add(a); } else legs.get(x).add(s);
      } else if (had) { bins.add(new int[]{1, a, b}); nh++; legs.get(u).add(a); legs.get(v).add(b); }
      else { legs.get(u).add(a); legs.get(v).add(a); }
    }
    TreeSet<Integer> vars = new TreeSet<>();
    for (int v = 1; v <= n; v++) if (spider(ty[v-1])) vars.add(v);
    for (int[] b : bins) { vars.add(b[1]); vars.add(b[2]); }
    for (List<Integer> l : legs.values()) vars.addAll(l);
    // use the advised order if it is a permutation of the variables
    int[] ord = ord0;
    TreeSet<Integer> os = new TreeSet<>(); for (int x : ord0) os.add(x);
    if (os.size() != ord0.length || !os.equals(vars)) { ord = new int[vars.size()]; int i = 0; for (int x : vars) ord[i++] = x; }
    int m = ord.length;
    int[] pos = new int[M];
    for (int i = 0; i < m; i++) pos[ord[i]] = i;
    int[] last = pos.clone();
    int nb = bins.size();
    int[] bst = new int[nb];
    for (int i = 0; i < nb; i++) { int[] b = bins.get(i); bst[i] = Math.max(pos[b[1]], pos[b[2]]);
      last[b[1]] = Math.max(last[b[1]], bst[i]); last[b[2]] = Math.max(last[b[2]], bst[i]); }
    int result = 1;
    List<int[]> boxL = new ArrayList<>(); List<int[]> boxP = new ArrayList<>(); // legs, {isB,label}
    for (Map.Entry<Integer, List<Integer>> en : legs.entrySet()) {
      int v = en.getKey(); boolean isB = ty[v-1] == 3; int lab = isB ? ph(phs[v-1]) : 1;
      if (en.getValue().isEmpty()) { result = mul(result, isB ? lab : 0); continue; }
      int[] ls = en.getValue().stream().mapToInt(x -> x).toArray();
      boxL.add(ls); boxP.add(new int[]{isB ? 1 : 0, lab});
    }
    int nx = boxL.size(); int[] xst = new int[nx];
    for (int i = 0; i < nx; i++) { for (int v : boxL.get(i)) xst[i] = Math.max(xst[i], pos[v]);
      for (int v : boxL.get(i)) last[v] = Math.max(last[v], xst[i]); }
    List<List<Integer>> binAt = new ArrayList<>(), boxAt = new ArrayList<>();
    for (int i = 0; i < m; i++) { binAt.add(new ArrayList<>()); boxAt.add(new ArrayList<>()); }
    for (int i = 0; i < nb; i++) binAt.get(bst[i]).add(i);
    for (int i = 0; i < nx; i++) boxAt.get(xst[i]).add(i);
    int[] T = {1};
    int[] live = new int[64]; int k = 0;
    int[] where = new int[M]; Arrays.fill(where, -1);
    for (int s = 0; s < m; s++) {
      int x = ord[s];
      int u = unary(x, n, ty, phs, lb, inp, out, r);
      int hm = 0, dm = 0; boolean flip = false;
      where[x] = k;
      for (int i : binAt.get(s)) {
        int[] b = bins.get(i); int o = b[1] == x ? b[2] : b[1];
        if (b[0] == 1) { if (o == x) flip = !flip; else hm ^= 1 << where[o]; }
        else if (o != x) dm |= 1 << where[o];
      }
      if (flip) u = mod(-u);
      int nu = mod(-u);
      int full = 1 << k;
      int[] T1 = new int[2 * full];
      for (int j = 0; j < full; j++) {
        T1[j] = (j & dm) != 0 ? 0 : T[j];
        T1[j + full] = (j & dm) != dm ? 0 : mul(T[j], (Integer.bitCount(j & hm) & 1) == 1 ? nu : u);
      }
      live[k++] = x;
      for (int i : boxAt.get(s)) {
        int[] ls = boxL.get(i), bp = boxP.get(i);
        if (bp[0] == 1) {
          int mk = 0; for (int v : ls) mk |= 1 << where[v];
          for (int j = 0; j < T1.length; j++) if ((j & mk) == mk) T1[j] = mul(T1[j], bp[1]);
        } else {
          for (int j = 0; j < T1.length; j++) { int c = 0; for (int v : ls) c += (j >> where[v]) & 1; if (c != 1) T1[j] = 0; }
        }
      }
      T = T1;
      for (int q = k - 1; q >= 0; q--) if (last[live[q]] == s) {
        int w = 1 << q; int[] T2 = new int[T.length / 2];
        for (int j = 0; j < T2.length; j++) { int lo = j & (w - 1), hi = (j >> q) << (q + 1); T2[j] = (T[hi + lo] + T[hi + w + lo]) % P; }
        T = T2;
        where[live[q]] = -1;
        for (int y = q; y < k - 1; y++) { live[y] = live[y+1]; where[live[y]] = y; }
        k--;
      }
    }
    result = mul(result, T[0]);
    return mul(mul(scalar(fld(g, "sc")), result), s2pow(-nh));
  }

  static int unary(int x, int n, int[] ty, int[] phs, Value[] lb, int[] inp, int[] out, int[] r) {
    if (x > n) return 1;
    int t = ty[x-1];
    if (t == 1 || t == 2) return ph(phs[x-1]);
    if (t == 6) return ring(lb[x-1]);
    for (int i = 0; i < inp.length; i++) if (inp[i] == x) return mod(r[i]);
    for (int i = 0; i < out.length; i++) if (out[i] == x) return mod(r[inp.length + i]);
    throw new RuntimeException("boundary vertex is neither input nor output");
  }

  // ------------------------------------------------------------ circuits
  static int neg(int a) { return a == 0 ? 0 : P - a; }
  static int cos(int k) { return mul((ph(k) + ph(-k)) % P, HALF); }
  static int sin(int k) { return mul(mul(mod(ph(k) - ph(-k)), HALF), neg(I)); }
  static int[] mu3(int t, int f, int l) { int h = Math.floorDiv(t, 2); return new int[]{cos(h), neg(mul(ph(l), sin(h))), mul(ph(f), sin(h)), mul(ph(f + l), cos(h))}; }
  static int[] mxph(int k) { int e = ph(k), a = mul((1 + e) % P, HALF), b = mul(mod(1 - e), HALF); return new int[]{a, b, b, a}; }
  static int[] mry(int k) { int h = Math.floorDiv(k, 2); return new int[]{cos(h), neg(sin(h)), sin(h), cos(h)}; }
  static int[] mrx(int k) { int h = Math.floorDiv(k, 2); int s = neg(mul(I, sin(h))); return new int[]{cos(h), s, s, cos(h)}; }
  static int[] mrz(int k) { int h = Math.floorDiv(k, 2); return new int[]{ph(-h), 0, 0, ph(h)}; }
  static int[] mzph(int k) { return new int[]{1, 0, 0, ph(k)}; }
  static final int[] MX = {0, 1, 1, 0};
  static int[] mhad() { return new int[]{IS2, IS2, IS2, neg(IS2)}; }
  static void appC(int[] v, int cm, int q, int[] m) {
    int w = 1 << q;
    for (int i = 0; i < v.length; i++) if ((i & w) == 0 && (i & cm) == cm) {
      int a = v[i], b = v[i + w];
      v[i] = (mul(m[0], a) + mul(m[1], b)) % P;
      v[i + w] = (mul(m[2], a) + mul(m[3], b)) % P;
    }
  }
  static void par(int[] v, int mk, int phs) { int c = ph(phs); for (int i = 0; i < v.length; i++) if ((Integer.bitCount(i & mk) & 1) == 1) v[i] = mul(v[i], c); }
  static void swap(int[] v, int cm, int a, int b) {
    for (int i = 0; i < v.length; i++) if ((i & cm) == cm && ((i >> a) & 1) == 1 && ((i >> b) & 1) == 0) {
      int j = i ^ (1 << a) ^ (1 << b); int t = v[i]; v[i] = v[j]; v[j] = t; }
  }

  @TLAPlusOperator(identifier = "CircValue", module = "CircSem", warn = false)
  public static Value circValue(final Value c, final Value rr) {
    int n = num(fld(c, "n")); int[] r = ints(rr);
    int[] v = prod(r, 0, n), o = prod(r, n, n);
    for (Value g : seq(fld(c, "gates"))) gate(v, g);
    long s = 0; for (int i = 0; i < v.length; i++) s = (s + mul(v[i], o[i])) % P;
    return IntValue.gen((int) s);
  }
  @TLAPlusOperator(identifier = "MatValue", module = "Meaning", warn = false)
  public static Value matValue(final Value m, final Value rr, final Value ni, final Value no) {
    int[] r = ints(rr); int nin = num(ni), nout = num(no);
    int[] ri = new int[nin], ro = new int[nout];
    for (int k = 0; k < nin; k++) ri[k] = r[nin - 1 - k];
    for (int k = 0; k < nout; k++) ro[k] = r[nin + nout - 1 - k];
    int[] rv = prod(ri, 0, nin), lv = prod(ro, 0, nout);
    Value[] rows = seq(m); long s = 0;
    for (int i = 0; i < rows.length; i++) {
      Value[] row = seq(rows[i]); long t = 0;
      for (int j = 0; j < row.length; j++) t = (t + mul(ring(row[j]), rv[j])) % P;
      s = (s + mul((int) t, lv[i])) % P;
    }
    return IntValue.gen((int) s);
  }
  static int[] prod(int[] r, int off, int n) {
    int[] v = new int[1 << n]; v[0] = 1;
    for (int q = 0; q < n; q++) for (int i = 0; i < (1 << q); i++) v[i + (1 << q)] = mul(v[i], mod(r[off + q]));
    return v;
  }
  static void gate(int[] v, Value g) {
    int[] q = ints(fld(g, "q"));
    for (int i = 0; i < q.length; i++) q[i]--;
    gate(v, str(fld(g, "nm")), q, ints(fld(g, "p")));
  }
  static void gate(int[] v, String nm, int[] q, int[] p) {
    int l = q.length - 1, cm = 0; for (int i = 0; i < l; i++) cm |= 1 << q[i];
    switch (nm) {
      case "ID": break;
      case "ZPhase": appC(v, 0, q[0], mzph(p[0])); break;
      case "XPhase": appC(v, 0, q[0], mxph(p[0])); break;
      case "YPhase": case "RYphys": appC(v, 0, q[0], mry(p[0])); break;
      case "RXphys": appC(v, 0, q[0], mrx(p[0])); break;
      case "RZphys": appC(v, 0, q[0], mrz(p[0])); break;
      case "HAD": appC(v, 0, q[0], mhad()); break;
      case "CNOT": case "TOF": case "MCX": appC(v, cm, q[l], MX); break;
      case "CZ": case "CCZ": case "MCZ": appC(v, cm, q[l], mzph(N/2)); break;
      case "XCX": appC(v, 0, q[0], mhad()); appC(v, cm, q[1], MX); appC(v, 0, q[0], mhad()); break;
      case "CY": appC(v, cm, q[1], new int[]{0, neg(I), I, 0}); break;
      case "CHAD": appC(v, cm, q[1], mhad()); break;
      case "CSX": appC(v, cm, q[1], mxph(N/4)); break;
      case "CXPhase": appC(v, cm, q[1], mxph(p[0])); break;
      case "SWAP": swap(v, 0, q[0], q[1]); break;
      case "CSWAP": swap(v, 1 << q[0], q[1], q[2]); break;
      case "CRX": appC(v, cm, q[1], mrx(p[0])); break;
      case "CRY": appC(v, cm, q[1], mry(p[0])); break;
      case "CRZ": appC(v, cm, q[1], mrz(p[0])); break;
      case "CPhase": appC(v, cm, q[1], mzph(p[0])); break;
      case "RZZ": case "ParityPhase": { int mk = 0; for (int x : q) mk ^= 1 << x; par(v, mk, p[0]); break; }
      case "RXX": appC(v, 0, q[0], mhad()); appC(v, 0, q[1], mhad()); par(v, (1 << q[0]) ^ (1 << q[1]), p[0]);
                  appC(v, 0, q[0], mhad()); appC(v, 0, q[1], mhad()); break;
      case "FSim": { int c = cos(p[0]), s = neg(mul(I, sin(p[0]))), e = ph(-p[1]); int a = 1 << q[0], b = 1 << q[1];
        for (int i = 0; i < v.length; i++) if ((i & a) == 0 && (i & b) == 0) {
          int x = v[i | a], y = v[i | b];
          v[i | a] = (mul(c, x) + mul(s, y)) % P; v[i | b] = (mul(c, y) + mul(s, x)) % P; v[i | a | b] = mul(v[i | a | b], e); }
        break; }
      case "U2": appC(v, 0, q[0], mu3(N/4, p[0], p[1])); break;
      case "U3": appC(v, 0, q[0], mu3(p[0], p[1], p[2])); break;
      case "CU3": appC(v, cm, q[1], mu3(p[0], p[1], p[2])); break;
      case "CU": { int[] m = mu3(p[0], p[1], p[2]); int e = ph(p[3]); for (int i = 0; i < 4; i++) m[i] = mul(m[i], e); appC(v, cm, q[1], m); break; }
      default: throw new RuntimeException("gate " + nm);
    }
  }

  // ------------------------------------------------------ hybrid circuits
  static final Set<String> REAL = new HashSet<>(Arrays.asList("HAD", "CNOT", "CZ", "XCX", "CHAD", "SWAP", "CCZ", "TOF", "CSWAP", "MCX", "MCZ", "ID", "YPhase", "CRY", "RYphys"));
  static void both(int[] v, int w, String nm, int[] q, int[] p) {
    gate(v, nm, q, p);
    int[] q2 = q.clone(), p2 = p.clone();
    for (int i = 0; i < q.length; i++) q2[i] += w;
    if (nm.equals("CSX")) { gate(v, "CXPhase", q2, new int[]{-(N / 4)}); return; }
    int first = nm.equals("U3") || nm.equals("CU3") || nm.equals("CU") ? 1 : 0;
    if (!REAL.contains(nm)) for (int i = first; i < p.length; i++) p2[i] = -p[i];
    gate(v, nm, q2, p2);
  }
  static void fresh(int[] v, int w, int x) {
    int a = 1 << x, b = 1 << (x + w);
    for (int i = 0; i < v.length; i++) if ((i & a) == 0 && (i & b) == 0) { v[i] = (v[i] + v[i | a | b]) % P; v[i | a] = 0; v[i | b] = 0; v[i | a | b] = 0; }
  }
  static void decohere(int[] v, int w, int x) { for (int i = 0; i < v.length; i++) if (((i >> x) & 1) != ((i >> (x + w)) & 1)) v[i] = 0; }

  @TLAPlusOperator(identifier = "HybValue", module = "Hybrid", warn = false)
  public static Value hybValue(final Value h, final Value rr) {
    int nq = num(fld(h, "q")), w = nq + num(fld(h, "b")); int[] r = ints(rr);
    int[] v = prod(r, 0, 2 * w), o = prod(r, 2 * w, 2 * w);
    for (Value part : seq(fld(h, "parts"))) {
      int[] qm = ints(fld(part, "qm")), bm = ints(fld(part, "bm"));
      for (Value g : seq(fld(part, "ops"))) {
        String nm = str(fld(g, "nm")); int[] q = ints(fld(g, "q")), p = ints(fld(g, "p"));
        for (int i = 0; i < q.length; i++) q[i] = qm[q[i] - 1] - 1;
        if (nm.equals("DISC")) fresh(v, w, nq + bm[p[0] - 1] - 1);
        else if (nm.equals("MEAS")) {
          if (p.length == 0) decohere(v, w, q[0]);
          else { int b = nq + bm[p[0] - 1] - 1; fresh(v, w, b); decohere(v, w, q[0]); both(v, w, "CNOT", new int[]{q[0], b}, new int[0]); }
        } else both(v, w, nm, q, p);
      }
    }
    long s = 0; for (int i = 0; i < v.length; i++) s = (s + mul(v[i], o[i])) % P;
    return IntValue.gen((int) s);
  }
}
