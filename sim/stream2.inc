// ---------------------------------------------------------------- operands of the call being checked (snapshot taken before it ran)
static std::vector<uint8_t> g_opnd[4], g_pre;
static void snap(const Call & c)
{
    for (unsigned i = 0; i < nkinds(c.op); ++i) if (c.op->kinds[i] == 'v') g_opnd[i].assign(arena() + c.in[i], arena() + c.in[i] + c.n * esz(c.op));
    if (c.op->cls == K_ADD) g_pre.assign(arena() + c.o0, arena() + c.o0 + c.n * esz(c.op));
}
static double toT(bool f64, double v) { return f64 ? v : double(float(v)); }

static void place_stream(Rng & r, Call & c)
{
    const uint32_t z = esz(c.op), oa = std::max<uint32_t>(c.op->out_align, z), ia = std::max<uint32_t>(c.op->in_align, z);
    c.o0 = slot_off(r, 0, oa); c.o1 = slot_off(r, 1, oa);
    for (unsigned i = 0; i < 4; ++i) c.in[i] = slot_off(r, 2 + i, ia);
    if (c.op->cls == K_ELEM && r.chance(20)) for (unsigned i = 0; i < nkinds(c.op); ++i) if (c.op->kinds[i] == 'v' && c.o0 % ia == 0 && r.chance(60)) { c.in[i] = c.o0; c.flags |= FL_INPLACE; }
    if ((c.op->cls == K_PAN || c.op->cls == K_ADD) && c.op->kinds[0] == 'v' && r.chance(25)) {
        uint32_t o = c.op->cls == K_PAN && r.chance(50) ? c.o1 : c.o0;
        if (o % ia == 0) { c.in[0] = o; c.flags |= FL_INPLACE; }
    }
}
static bool aliased(const Call & c, uint32_t o)
{
    for (unsigned i = 0; i < nkinds(c.op); ++i) if (c.op->kinds[i] == 'v' && c.in[i] == o) return true;
    return false;
}

// ================================================================ C07 ramps
static bool clamp_op(int id) { return id == R_clip || id == R_clip2; }
// a new line that has much in common with the one before: the same start or slope, or one that differs in the last digits only
static void retarget(Rng & r, int id, bool f, uint32_t n, double * base, double * slope, const double * ob, const double * os)
{
    for (int i = 0; i < 4; ++i) {
        if (id == R_set_exp) {
            if (i) break;
            double q = r.chance(80) ? nudged(r, os[0], f) : os[0];
            if (q != 0 && std::fabs(std::log(std::fabs(q))) * n <= (f ? 600 : 60)) { slope[0] = q; if (r.chance(50)) base[0] = toT(f, ob[0]); }
            continue;
        }
        if (r.chance(60)) base[i] = r.chance(50) ? toT(f, ob[i]) : nudged(r, ob[i], f);
        if (r.chance(60)) slope[i] = r.chance(50) ? toT(f, os[i]) : nudged(r, os[i], f);
        if (!(std::fabs(base[i]) <= 1e3)) base[i] = 1;
        if (!(std::fabs(slope[i]) <= 2)) slope[i] = 0.5;
    }
}
static void gen_C07(Script & sc, Rng & r)
{
    static std::vector<const Op *> pool;
    if (pool.empty()) for (const Op * o : g_ops) if (strchr(o->kinds, 'r') && ref_id(o) != R_NONE) pool.push_back(o);
    if (pool.empty()) return;
    sc.nt = r.range(1, 3); sc.garbage = r.next();
    const Op * vop[MAXT]; bool exact[MAXT]; double unit[MAXT]; double base[MAXT][4], slope[MAXT][4];
    double ob[4], os[4]; bool have = false;      // the line of the call before
    int nb = r.range(6, 24), big = draw_big(r, sc.seed, pool.size());
    for (int t = 0; t < sc.nt; ++t) { vop[t] = t == 0 ? pool[sc.seed % pool.size()] : pool[r.below(pool.size())]; base[t][0] = NAN; }
    for (int k = 0; k < nb; ++k) {
        Call c; c.task = big && k == nb / 2 ? 0 : int(r.below(sc.nt)); const int t = c.task;
        c.op = big && k == nb / 2 ? vop[0] : variant_of(r, vop[t]);
        const bool f = c.op->f64; const int id = ref_id(c.op);
        c.n = stream_n(r, c.op, k == nb / 2 ? big : 0);
        bool fresh = base[t][0] != base[t][0] || r.chance(12);
        // a line must stay in range for the whole block; start a new one when it would not
        auto limit = [&] { return f ? 0x1p50 : 0x1p22; };
        if (!fresh && exact[t]) for (int i = 0; i < 4; ++i) if (std::fabs(base[t][i] + c.n * slope[t][i]) > limit() * unit[t]) fresh = true;
        if (!fresh && id == R_set_exp) fresh = true;
        if (!fresh && (clamp_op(id) || id == R_pow || id == R_spow)) fresh = true;
        if (!fresh && !exact[t]) for (int i = 0; i < 4; ++i) if (std::fabs(base[t][i] + c.n * slope[t][i]) > 1e4) fresh = true;
        if (fresh) {
            exact[t] = !(ref_multilinear(id) && r.chance(30));
            if (id == R_pow || id == R_spow) exact[t] = false;
            int e = f ? r.range(-44, -20) : r.range(-20, -6);
            if (r.chance(25)) e = f ? r.range(-200, -20) : r.range(-50, -6);
            unit[t] = std::ldexp(1.0, e);
            for (int i = 0; i < 4; ++i) {
                if (exact[t] && clamp_op(id)) {      // keep low <= high along both lines
                    double span = 0.75 / c.n; e = f ? -44 : -20; unit[t] = std::ldexp(1.0, e);
                    double m = std::floor(span / unit[t]);
                    base[t][i] = (1.0 + double(r.below(64)) / 64) * ((id == R_clip && i == 1) ? -1 : 1);
                    if (i == 0) base[t][i] = double(r.range(-192, 192)) / 64;
                    slope[t][i] = (m < 1 ? 0 : double(int64_t(r.below(uint64_t(2 * m + 1))) - int64_t(m))) * unit[t];
                } else if (exact[t]) {
                    double room = limit() / 2;
                    double m = std::floor(room / (c.n * (1 + double(r.below(4)))));
                    if (!f && m > 4096) m = 4096;
                    if (f && r.chance(30) && m > 4096) m = 4096;
                    int64_t bmax = int64_t(r.chance(50) ? 256 : room / 2);
                    base[t][i] = double(int64_t(r.below(uint64_t(2 * bmax + 1))) - bmax) * unit[t];
                    slope[t][i] = double(int64_t(r.below(uint64_t(2 * m + 1))) - int64_t(m)) * unit[t];
                    if (r.chance(6)) slope[t][i] = 0;
                } else if (id == R_pow || id == R_spow) {
                    base[t][i] = i == 0 ? 0.5 + 2 * r.unit() : r.unit() * 2 - 1;
                    slope[t][i] = (r.unit() * 2 - 1) * (i == 0 ? 0.4 : 1.5) / c.n;
                } else {
                    base[t][i] = (r.unit() * 2 - 1) * (r.chance(50) ? 1 : 100);
                    slope[t][i] = (r.unit() * 2 - 1) * (r.chance(50) ? 0.01 : 2);
                    if (r.chance(20)) slope[t][i] *= std::exp(-r.unit() * 30);
                    if (r.chance(10)) base[t][i] = 0;
                }
                base[t][i] = toT(f, base[t][i]); slope[t][i] = toT(f, slope[t][i]);
            }
            if (id == R_set_exp) {
                double lim = f ? 600 : 60;             // |log| of the total change
                if (r.chance(50)) {
                    exact[t] = true;
                    static const double cv[] = { 1, -1, 2, 0.5, -2, -0.5, 4, 0.25 };
                    double q; do q = cv[r.below(8)]; while (std::fabs(std::log(std::fabs(q))) * c.n > lim);
                    slope[t][0] = q; base[t][0] = toT(f, r.unit() + 0.5);
                } else {
                    exact[t] = false;
                    double l = std::min(lim / c.n, 0.7) * (r.unit() * 2 - 1);
                    slope[t][0] = toT(f, std::exp(l) * (r.chance(10) ? -1 : 1)); base[t][0] = toT(f, (r.unit() + 0.5) * (r.chance(30) ? -1 : 1));
                }
            }
            if (have && !exact[t] && id != R_pow && id != R_spow && r.chance(30)) retarget(r, id, f, c.n, base[t], slope[t], ob, os);
            if (k) c.flags |= FL_RESET;
        }
        for (int i = 0; i < 4; ++i) { c.s[i] = ob[i] = base[t][i]; c.sl[i] = os[i] = slope[t][i]; }
        have = true;
        if (exact[t]) c.flags |= FL_EXACT;
        static const uint8_t cl[] = { D_UNIT, D_AUDIO, D_DYADIC, D_INTS, D_POS };
        c.cls = (id == R_pow || id == R_spow) ? uint8_t(D_POS) : clamp_op(id) ? uint8_t(r.chance(50) ? D_UNIT : D_DYADIC) : cl[r.below(5)];
        c.seed = r.next();
        place_stream(r, c);
        // in place with several vector operands: all of them are then the same samples, which the operand ranges may not allow
        unsigned al = 0; for (unsigned i = 0; i < nkinds(c.op); ++i) if (c.op->kinds[i] == 'v' && c.in[i] == c.o0) { if (al++) c.in[i] = slot_off(r, 2 + i, std::max<uint32_t>(c.op->in_align, esz(c.op))); }
        if (r.chance(6)) c.flags |= FL_XRUN;
        sc.calls.push_back(c);
        // the host continues the line where this block ended (a dropped block advances it as well)
        uint32_t adv = c.n + ((c.flags & FL_XRUN) ? c.n : 0);
        for (int i = 0; i < 4; ++i) base[t][i] = toT(f, base[t][i] + adv * slope[t][i]);
        if (exact[t] && (c.flags & FL_XRUN)) for (int i = 0; i < 4; ++i) if (std::fabs(base[t][i]) > limit() * unit[t]) base[t][0] = NAN;
    }
    sc.used = STREAM_SIZE;
}

static void fill_operands(const Call & c)
{
    for (unsigned i = 0; i < nkinds(c.op); ++i) if (c.op->kinds[i] == 'v' && (c.in[i] != c.o0 || i == 0 || c.in[0] != c.o0)) {
        uint8_t * p = arena() + c.in[i];
        fill_data(p, c.n, c.op->f64, c.cls, c.seed + i * 77);
        const int id = ref_id(c.op);
        if (clamp_op(id) && i > 0) for (uint32_t k = 0; k < c.n; ++k) { double v = std::fabs(ld(p, c.op->f64, k)); st(p, c.op->f64, k, id == R_clip && i == 1 ? -v : v); }
        poison(c.in[i], c.n * esz(c.op));
    }
    if (c.op->cls == K_ADD) fill_data(arena() + c.o0, c.n, c.op->f64, c.cls, c.seed + 999);
    else if (!aliased(c, c.o0)) memset(arena() + c.o0, 0xee, c.n * esz(c.op));
    if (c.op->cls == K_PAN && !aliased(c, c.o1)) memset(arena() + c.o1, 0xee, c.n * esz(c.op));
}

static void c07_before(Task &, const Call & c)
{
    // several in-place vector operands share one buffer: fill once
    fill_operands(c);
    snap(c);
}

static void c07_after(Task & t, const Call & c)
{
    const bool f = c.op->f64; const int id = ref_id(c.op); const unsigned ar = nkinds(c.op);
    const long double eps = f ? 0x1p-52L : 0x1p-23L;
    const bool exact = (c.flags & FL_EXACT);
    long double cv = 1;
    for (uint32_t i = 0; i < c.n; ++i) {
        long double a[5], dr[5]; unsigned na = 0;
        if (id == R_add) { a[na] = ld(g_pre.data(), f, i); dr[na++] = 0; }
        for (unsigned j = 0; j < ar; ++j, ++na) {
            dr[na] = 0;
            switch (c.op->kinds[j]) {
            case 'v': a[na] = ld(g_opnd[j].data(), f, i); break;
            case 's': a[na] = c.s[j]; break;
            default: a[na] = (long double)c.s[j] + (long double)i * c.sl[j]; dr[na] = exact ? 0 : eps * (i + 8) * (fabsl(c.s[j]) + i * fabsl(c.sl[j])); break;
            }
        }
        for (unsigned j = na; j < 5; ++j) a[j] = dr[j] = 0;
        Ref r;
        if (id == R_set_exp) {
            r.nout = 1; r.v[0] = c.s[0] * cv; r.exact = exact; r.tol[0] = eps * (2.0L * i + 16) * fabsl(r.v[0]);
            if (exact) r.v[0] = f ? double(r.v[0]) : float(r.v[0]);
            cv *= c.sl[0];
        } else if (exact) ref_eval(id, f, na, a, r);
        else if (id == R_pow || id == R_spow) { ref_eval(id, f, na, a, r); r.exact = false;
            long double tol = fabsl(r.v[0]) * (f ? 1e-9L : 2e-4L);
            for (int j = 0; j < 2; ++j) for (int s = -1; s <= 1; s += 2) { long double b[5]; memcpy(b, a, sizeof b); b[j] += s * dr[j]; Ref q; ref_eval(id, f, na, b, q); tol += fabsl(q.v[0] - r.v[0]); }
            r.tol[0] = tol; }
        else {
            // multilinear in extended precision, plus the ramp's own accumulated rounding
            auto ml = [&](const long double * b, long double * o) {
                switch (id) {
                case R_plus: case R_add: o[0] = b[0] + b[1]; break;
                case R_minus: o[0] = b[0] - b[1]; break;
                case R_times: o[0] = b[0] * b[1]; break;
                case R_muladd: o[0] = b[0] * b[1] + b[2]; break;
                case R_ampmod: o[0] = b[0] * (1 + b[1] * b[2]); break;
                case R_mix: o[0] = b[0] * b[1] + b[2] * b[3]; break;
                case R_sum: o[0] = 0; for (unsigned j = 0; j < na; ++j) o[0] += b[j]; break;
                case R_set_slope: o[0] = b[0]; break;
                case R_pan2: o[0] = b[0] * b[1]; o[1] = b[0] * b[2]; break;
                }
            };
            long double b[5], o2[2], m[2], up[2];
            ml(a, r.v); r.nout = id == R_pan2 ? 2 : 1; r.exact = false;
            for (int j = 0; j < 5; ++j) b[j] = fabsl(a[j]);
            if (id == R_minus) { b[0] += b[1]; b[1] = 0; }
            ml(b, m);
            for (int j = 0; j < 5; ++j) b[j] = fabsl(a[j]) + dr[j];
            if (id == R_minus) { b[0] += b[1]; b[1] = 0; }
            ml(b, up); (void)o2;
            for (int k = 0; k < r.nout; ++k) r.tol[k] = 2 * (up[k] - m[k]) + 6 * eps * m[k] + (f ? 0x1p-1060L : 0x1p-140L);
        }
        for (int k = 0; k < r.nout; ++k) {
            double got = ld(arena() + (k ? c.o1 : c.o0), f, i);
            if (!ref_match(r, k, got)) {
                violation("ramp", "block %d of voice %d, %s%s: sample %u of output %d is %.17g, the line gives %.17Lg (tolerance %Lg); base %.17g slope %.17g", int(t.next), t.id, cname(c).c_str(), exact ? " exact" : "", i, k, got, r.v[k], r.tol[k],
                    c.s[strchr(c.op->kinds, 'r') - c.op->kinds], c.sl[strchr(c.op->kinds, 'r') - c.op->kinds]);
                return;
            }
        }
    }
    g_sh->checks += c.n;
    ev(hash_bytes(arena() + c.o0, c.n * esz(c.op)));
}
static void exec_C07(Script & sc, Outcome & o) { run_stream(sc, o, nullptr, c07_before, c07_after); }

// ================================================================ C08 memory operations against a byte array
static void gen_C08(Script & sc, Rng & r)
{
    static std::vector<const Op *> pool;
    if (pool.empty()) for (const Op * o : g_ops) if (o->cls == K_COPY || (o->cls == K_FILL && !strchr(o->kinds, 'r')) || (o->cls == K_ADD && !strchr(o->kinds, 'r'))) pool.push_back(o);
    if (pool.empty()) return;
    sc.nt = 1; sc.garbage = r.next();
    int big = draw_big(r, sc.seed, pool.size());
    sc.used = big == 3 ? 40u << 20 : big == 2 ? 3u << 20 : big == 1 ? 256u << 10 : 12u << 10;
    int nc = big == 3 ? r.range(2, 4) : big ? r.range(8, 16) : r.range(30, 90);
    uint32_t lastw = 4096, lastn = 64;
    const Op * hot = pool[sc.seed % pool.size()];
    for (int k = 0; k < nc; ++k) {
        Call c; c.task = 0; c.op = r.chance(40) ? hot : pool[r.below(pool.size())];
        if (big && k == nc / 2) c.op = hot;
        const uint32_t z = esz(c.op), oa = std::max<uint32_t>(c.op->out_align, z), ia = std::max<uint32_t>(c.op->in_align, z);
        c.n = stream_n(r, c.op, big && (k == nc / 2 || r.chance(30)) ? big : 0);
        uint32_t len = c.n * z;
        auto draw = [&](uint32_t al) {
            uint32_t off;
            if (r.chance(50)) { static const int d[] = { 0, -1, 1 }; int64_t w = int64_t(lastw) + (r.chance(50) ? 0 : lastn) + d[r.below(3)] * int64_t(al) + (r.chance(30) ? -int64_t(len) : 0); off = uint32_t(w < 64 ? 64 : w); }
            else off = 64 + uint32_t(r.below(sc.used - len - 128));
            off = off / al * al;
            if (off < 64) off = 64;
            if (off + len + 64 > sc.used) off = (sc.used - len - 64) / al * al;
            return off;
        };
        if (len + 256 > sc.used / 2) { --k; if (r.chance(5)) break; continue; }
        c.o0 = draw(oa);
        if (nkinds(c.op) && c.op->kinds[0] == 'v') {
            int tries = 0;
            do c.in[0] = draw(ia); while (++tries < 50 && c.in[0] < c.o0 + len && c.o0 < c.in[0] + len);
            if (tries == 50) { if (c.o0 >= len + 128) c.in[0] = (c.o0 - len) / ia * ia; else c.in[0] = (c.o0 + len + ia - 1) / ia * ia; }
            if (c.op->cls == K_ADD && r.chance(8) && c.o0 % ia == 0) c.in[0] = c.o0;
            if (c.in[0] + len > sc.used) continue;
        }
        double v; do v = gen_value(r, r.chance(50) ? int(D_SPECIAL) : int(D_BITS), c.op->f64); while (v != v);
        c.s[0] = toT(c.op->f64, v);
        lastw = c.o0; lastn = len;
        sc.calls.push_back(c);
    }
}

static std::vector<uint8_t> g_shadow;
static void c08_start(const Script & sc)
{
    Rng r(sc.garbage); uint64_t * p = reinterpret_cast<uint64_t *>(arena());
    for (uint32_t i = 0; i < sc.used / 8; ++i) p[i] = r.below(10) ? r.next() : (r.below(2) ? 0xffffffff7fc12345ull : 0x8000000000000001ull);
    g_shadow.assign(arena(), arena() + sc.used);
}
static void c08_before(Task &, const Call &) {}
static void c08_after(Task & t, const Call & c)
{
    const bool f = c.op->f64; const uint32_t z = esz(c.op);
    uint8_t * s = g_shadow.data();
    for (uint32_t i = 0; i < c.n; ++i) {
        uint8_t * d = s + c.o0 + i * z;
        if (c.op->cls == K_COPY) memcpy(d, s + c.in[0] + i * z, z);
        else if (c.op->cls == K_FILL) { if (*c.op->kinds) st(d, f, 0, c.s[0]); else memset(d, 0, z); }
        else {
            double b = c.op->kinds[0] == 'v' ? ld(s + c.in[0] + i * z, f, 0) : c.s[0];
            uint8_t tmp[8];
            if (f) { volatile double x = ld(d, true, 0), y = b; double q = x + y; memcpy(tmp, &q, 8); }
            else { volatile float x = float(ld(d, false, 0)), y = float(b); float q = x + y; memcpy(tmp, &q, 4); }
            const uint8_t * g = arena() + c.o0 + i * z;
            if (!same_value(tmp, g, f)) { violation("memory-op", "call %d %s: element %u is %.17g, model %.17g", int(t.next), cname(c).c_str(), i, ld(g, f, 0), ld(tmp, f, 0)); return; }
            memcpy(d, g, z);
        }
    }
    g_sh->checks++;
    if (memcmp(s, arena(), g_eng->sc->used)) {
        uint32_t k = 0; while (s[k] == arena()[k]) ++k;
        bool in = k >= c.o0 && k < c.o0 + c.n * z;
        violation("memory-op", "call %d %s dst=%u src=%u: byte %u (%s) is %02x, model %02x", int(t.next), cname(c).c_str(), c.o0, c.in[0], k, in ? ("element " + std::to_string((k - c.o0) / z)).c_str() : "outside the destination", arena()[k], s[k]);
    }
    ev(hash_bytes(arena() + c.o0, c.n * z));
}
static void exec_C08(Script & sc, Outcome & o) { run_stream(sc, o, c08_start, c08_before, c08_after); }

// ================================================================ C09 sample independence
static void gen_C09(Script & sc, Rng & r)
{
    static std::vector<const Op *> pool;
    if (pool.empty()) for (const Op * o : g_ops) if ((o->cls == K_ELEM || o->cls == K_PAN || o->cls == K_ADD) && !strchr(o->kinds, 'r')) pool.push_back(o);
    if (pool.empty()) return;
    sc.nt = r.range(1, 2); sc.garbage = r.next();
    for (int t = 0; t < sc.nt; ++t) sc.mxcsr[t] = draw_mxcsr(r);
    const Op * hot = pool[sc.seed % pool.size()];
    int nc = r.range(5, 12), big = draw_big(r, sc.seed, pool.size());
    for (int k = 0; k < nc; ++k) {
        Call c; c.task = int(r.below(sc.nt));
        c.op = k == 0 || k == nc / 2 || r.chance(60) ? hot : r.chance(60) ? variant_of(r, hot, true, true) : pool[r.below(pool.size())];
        c.n = stream_n(r, c.op, k == nc / 2 ? big : 0);
        static const int w[] = { D_UNIT, D_UNIT, D_DYADIC, D_WIDE, D_SPECIAL, D_BITS, D_MOSTLY, D_THRESH, D_POS, D_AUDIO, D_INTS, D_DENORM };
        c.cls = uint8_t(w[r.below(12)]);
        draw_scalars(r, c, r.chance(60) ? D_UNIT : c.cls);
        c.seed = r.next(); c.aux = r.next();
        place_stream(r, c);
        if (r.chance(50)) c.flags |= FL_CORRUPT;
        sc.calls.push_back(c);
    }
    sc.used = STREAM_SIZE;
}

static void c09_before(Task &, const Call & c)
{
    fill_operands(c);
    if (c.flags & FL_CORRUPT) {          // hostile samples among ordinary ones
        Rng r(c.aux);
        static const double bad[] = { NAN, INFINITY, -INFINITY, 0.0, -0.0, 1e-42, 3e38, -3e38, -1.0, 1e300 };
        for (unsigned i = 0; i < nkinds(c.op); ++i) if (c.op->kinds[i] == 'v') {
            int k = 1 + int(r.below(1 + c.n / 4));
            for (; k; --k) st(arena() + c.in[i], c.op->f64, r.below(c.n), bad[r.below(10)]);
        }
        g_sh->faults[F_CORRUPT]++;
    }
    snap(c);
}

// runs one more real call on behalf of the block being checked
static void aux_call(Task & t, const Op * op, Args & a)
{
    t.steps = 0; t.left = ~0ull; t.limit = uint64_t(a.n) * 2000 + 100000;
    set_mxcsr(t.mxcsr);
    t.incall = true;
    op->fn(a);
    t.incall = false;
    set_mxcsr(0x1f80);
}

// the whole block again, its samples in another order, cut into other blocks, by another form of the same family
static bool c09_permuted(Task & t, const Call & c, Rng & r)
{
    const bool f = c.op->f64; const uint32_t z = esz(c.op), n = c.n;
    if (n < 2 || n * z > 100000) return true;
    const Op * op = nullptr; int seen = 0;
    for (const Op * o : g_ops) {
        if (strcmp(o->name, c.op->name) || o->f64 != c.op->f64 || o->cls != c.op->cls || nkinds(o) != nkinds(c.op) || strchr(o->kinds, 'r')) continue;
        if ((o->variant == V_SCALAR) != (c.op->variant == V_SCALAR)) continue;
        bool ok = true; for (unsigned j = 0; j < nkinds(o); ++j) ok &= !(c.op->kinds[j] == 'v' && o->kinds[j] != 'v');
        if (ok && r.below(++seen) == 0) op = o;
    }
    if (!op) return true;
    const uint32_t unit = op->fixed_n ? op->fixed_n : op->gran, m = (n + unit - 1) / unit * unit, base = 6 * SLOT + 8192, o0 = 7 * SLOT + 8192, o1 = 7 * SLOT + SLOT / 2 + 8192;
    auto gcd = [](uint32_t a, uint32_t b) { while (b) { uint32_t q = a % b; a = b; b = q; } return a; };
    uint32_t mul, add = uint32_t(r.below(n));
    do mul = 1 + uint32_t(r.below(n)); while (gcd(mul, n) != 1);
    auto src_of = [&](uint32_t k) { return uint32_t((uint64_t(k % n) * mul + add) % n); };       // which sample of the block sits at position k
    uint32_t shift = op->variant == V_SCALAR ? uint32_t(r.below(16)) * z : 0;
    for (unsigned j = 0; j < nkinds(op); ++j) if (op->kinds[j] == 'v') {
        uint8_t * p = arena() + base + j * (SLOT / 8) + shift;
        uint8_t cell[8]; if (c.op->kinds[j] != 'v') st(cell, f, 0, c.s[j]);
        for (uint32_t k = 0; k < m; ++k) memcpy(p + k * z, c.op->kinds[j] == 'v' ? g_opnd[j].data() + src_of(k) * z : cell, z);
    }
    if (c.op->cls == K_ADD) for (uint32_t k = 0; k < m; ++k) memcpy(arena() + o0 + shift + k * z, g_pre.data() + src_of(k) * z, z);
    dirty_machine(c.aux);
    for (uint32_t k = 0; k < m; ) {
        uint32_t len = op->fixed_n ? op->fixed_n : r.chance(40) ? m - k : std::min<uint32_t>(m - k, (1 + uint32_t(r.below(std::max<uint32_t>(1, m / unit)))) * unit);
        Args a; memset(&a, 0, sizeof a);
        a.n = len; a.out0 = arena() + o0 + shift + k * z; a.out1 = arena() + o1 + shift + k * z;
        for (unsigned j = 0; j < nkinds(op); ++j) { a.in[j] = arena() + base + j * (SLOT / 8) + shift + k * z; set_scalar(a, j, c.s[j], 0); }
        aux_call(t, op, a);
        k += len;
    }
    for (int q = 0; q < (c.op->cls == K_PAN ? 2 : 1); ++q)
        for (uint32_t k = 0; k < n; ++k) {
            uint32_t i = src_of(k);
            const uint8_t * got = arena() + (q ? c.o1 : c.o0) + i * z, * ref = arena() + (q ? o1 : o0) + shift + k * z;
            if (!same_value(got, ref, f)) {
                violation("sample-dependence", "block %d of voice %d, %s: sample %u of output %d is %.17g; at position %u of a reordered block processed by %s it is %.17g; first operand %.17g", int(t.next), t.id, cname(c).c_str(), i, q, ld(got, f, 0), k, op_id(op).c_str(), ld(ref, f, 0),
                    c.op->kinds[0] == 'v' ? ld(g_opnd[0].data(), f, i) : c.s[0]);
                return false;
            }
        }
    g_sh->checks++;
    return true;
}

static void c09_after(Task & t, const Call & c)
{
    const bool f = c.op->f64; const uint32_t z = esz(c.op);
    Rng r(c.aux ^ 0x99);
    const uint32_t base = 6 * SLOT + 8192, o0 = 7 * SLOT + 8192, o1 = 7 * SLOT + SLOT / 2 + 8192;
    int nsel = c.n <= 16 ? int(c.n) : 14;
    for (int q = 0; q < nsel; ++q) {
        uint32_t i = c.n <= 16 ? uint32_t(q) : q == 0 ? 0 : q == 1 ? c.n - 1 : uint32_t(r.below(c.n));
        const Op * op = r.chance(40) ? c.op : variant_of(r, c.op, true, true);
        uint32_t n = op->fixed_n ? op->fixed_n : op->gran;
        Args a; memset(&a, 0, sizeof a);
        a.n = n; a.out0 = arena() + o0; a.out1 = arena() + o1;
        for (unsigned j = 0; j < nkinds(op); ++j) {
            const uint8_t * src = nullptr; uint8_t cell[8];
            if (c.op->kinds[j] == 'v') src = g_opnd[j].data() + i * z; else { st(cell, f, 0, c.s[j]); src = cell; }
            uint8_t * p = arena() + base + j * (SLOT / 8);
            for (uint32_t k = 0; k < n; ++k) memcpy(p + k * z, src, z);
            a.in[j] = p; set_scalar(a, j, ld(src, f, 0), 0);
        }
        if (c.op->cls == K_ADD) for (uint32_t k = 0; k < n; ++k) memcpy(arena() + o0 + k * z, g_pre.data() + i * z, z);
        dirty_machine(c.aux + q);
        aux_call(t, op, a);
        for (int k = 0; k < (c.op->cls == K_PAN ? 2 : 1); ++k) {
            const uint8_t * got = arena() + (k ? c.o1 : c.o0) + i * z;
            for (uint32_t l = 0; l < n; ++l) {
                const uint8_t * ref = arena() + (k ? o1 : o0) + l * z;
                if (!same_value(got, ref, f)) {
                    violation("sample-dependence", "block %d of voice %d, %s: sample %u of output %d is %.17g; processed on its own by %s (lane %u) it is %.17g; first operand %.17g", int(t.next), t.id, cname(c).c_str(), i, k, ld(got, f, 0), op_id(op).c_str(), l, ld(ref, f, 0),
                        c.op->kinds[0] == 'v' ? ld(g_opnd[0].data(), f, i) : c.s[0]);
                    return;
                }
            }
        }
        g_sh->checks++;
    }
    if (!c09_permuted(t, c, r)) return;
    ev(hash_bytes(arena() + c.o0, c.n * z));
}
static uint64_t out_digest(const Call & c)
{
    const uint32_t z = esz(c.op); const bool f = c.op->f64; uint64_t h = c.n;
    for (int k = 0; k < (c.op->cls == K_PAN ? 2 : 1); ++k) for (uint32_t i = 0; i < c.n; ++i) {
        double v = ld(arena() + (k ? c.o1 : c.o0), f, i); uint64_t b = 1;
        if (v == v) memcpy(&b, &v, 8);
        h = mix64(h, b);
    }
    (void)z;
    return h;
}
static void c09_keep(Task & t, const Call & c)
{
    if (t.cur < MAXCALLS) g_sh->out_hash[t.cur] = out_digest(c);
    c09_after(t, c);
}
static void c09_fresh(Task & t, const Call & c) { if (t.cur < MAXCALLS) g_sh->out_hash[t.cur] = out_digest(c); }
static void exec_C09(Script & sc, Outcome & o)
{
    run_stream(sc, o, nullptr, c09_before, c09_keep);
    if (o.status != ST_OK || mix64(sc.garbage, 0xF5E5) % (sc.modes ? 1 : 5)) return;
    // some blocks again, each as the only call of a process
    std::vector<uint64_t> was(g_sh->out_hash, g_sh->out_hash + MAXCALLS);
    const size_t nc = std::min<size_t>(sc.calls.size(), MAXCALLS);
    for (size_t q = 0; q < 3 && q < nc; ++q) {
        const size_t k = nc <= 3 ? q : q == 0 ? nc - 1 : size_t(mix64(sc.garbage, q) % (nc - 1));
        if (sc.calls[k].n > 20000) continue;
        int pid = fork_child();
        if (pid == 0) {
            static Engine e;
            e.dirty = true; e.before = c09_before; e.after = c09_fresh; e.step_limit = 100000;
            engine_setup(e, sc);
            Task & t = e.tasks[sc.calls[k].task];
            while (t.calls[t.next] != int(k)) ++t.next;
            t.left = ~0ull; t_cur = &t;
            run_call(t);
            g_sh->checks++;
            if (g_sh->out_hash[k] != was[k])
                violation("history", "block %zu of the stream, %s: as the only call of a process it gives another result than after the calls before it", k, cname(sc.calls[k]).c_str());
            else g_sh->status = ST_OK;
            _exit(0);
        }
        o.status = ST_NONE;
        if (!fork_end(o, pid)) return;
        o.status = ST_OK;
    }
}

// ================================================================ C10 kernel migration
static void gen_C10(Script & sc, Rng & r)
{
    static std::vector<const Op *> pool;
    if (pool.empty()) for (const Op * o : g_ops) if ((o->cls == K_ELEM || o->cls == K_PAN || o->cls == K_ADD) && !strchr(o->kinds, 'r') && ref_id(o) != R_NONE) pool.push_back(o);
    if (pool.empty()) return;
    sc.nt = r.range(1, 2); sc.garbage = r.next();
    const Op * vop[2]; vop[0] = pool[sc.seed % pool.size()]; vop[1] = pool[r.below(pool.size())];
    int nb = r.range(5, 14), big = draw_big(r, sc.seed, pool.size());
    for (int k = 0; k < nb; ++k) {
        Call c; c.task = k == 0 || k == nb / 2 ? 0 : int(r.below(sc.nt));
        c.op = k == 0 || k == nb / 2 ? vop[0] : variant_of(r, vop[c.task]);
        c.n = stream_n(r, c.op, k == nb / 2 ? big : 0);
        c.seed = r.next();
        for (unsigned i = 0; i < nkinds(c.op); ++i) c.s[i] = ref_domain(r, ref_id(c.op), c.op->cls == K_ADD ? 1 : i, nkinds(c.op), c.op->f64);
        // constants that differ from those of the call before in the last digits only, or not at all
        if (!sc.calls.empty() && r.chance(15) && ref_id(sc.calls.back().op) == ref_id(c.op) && sc.calls.back().op->f64 == c.op->f64)
            for (unsigned i = 0; i < nkinds(c.op); ++i) if (r.chance(70)) c.s[i] = r.chance(40) ? sc.calls.back().s[i] : nudged(r, sc.calls.back().s[i], c.op->f64);
        place_stream(r, c);
        // in place with several vector operands: all of them are then the same samples, which the operand ranges may not allow
        unsigned al = 0; for (unsigned i = 0; i < nkinds(c.op); ++i) if (c.op->kinds[i] == 'v' && c.in[i] == c.o0) { if (al++) c.in[i] = slot_off(r, 2 + i, std::max<uint32_t>(c.op->in_align, esz(c.op))); }
        sc.calls.push_back(c);
    }
    sc.used = STREAM_SIZE;
}
static void c10_before(Task &, const Call & c)
{
    const int id = ref_id(c.op); const unsigned ar = nkinds(c.op); const bool f = c.op->f64;
    Rng r(c.seed);
    for (unsigned j = 0; j < ar; ++j) if (c.op->kinds[j] == 'v') {
        for (uint32_t i = 0; i < c.n; ++i) st(arena() + c.in[j], f, i, ref_domain(r, id, c.op->cls == K_ADD ? 1 : j, ar, f));
        poison(c.in[j], c.n * esz(c.op));
    }
    // operands that are equal or neighbours: where comparisons and limits decide
    bool cmp = id == R_less || id == R_less_equal || id == R_greater || id == R_greater_equal || id == R_equal || id == R_notequal || id == R_min || id == R_max || id == R_minus;
    if (ar >= 2 && (cmp || clamp_op(id))) for (unsigned j = 0; j < (cmp ? 2u : 1u); ++j) if (c.op->kinds[j] == 'v') {
        unsigned o = cmp ? 1 - j : 1 + (id == R_clip ? unsigned(r.below(2)) : 0);
        for (uint32_t i = 0; i < c.n; ++i) if (r.chance(10)) {
            double v = c.op->kinds[o] == 'v' ? ld(arena() + c.in[o], f, i) : toT(f, c.s[o]);
            if (id == R_clip2 && r.chance(50)) v = -v;
            int d = r.range(-2, 2);
            for (int k = std::abs(d); k; --k) v = f ? std::nextafter(v, d < 0 ? -INFINITY : INFINITY) : double(std::nextafter(float(v), d < 0 ? -INFINITY : INFINITY));
            st(arena() + c.in[j], f, i, v);
        }
    }
    if (c.op->cls == K_ADD) for (uint32_t i = 0; i < c.n; ++i) st(arena() + c.o0, f, i, ref_domain(r, id, 0, 2, f));
    else if (!aliased(c, c.o0)) memset(arena() + c.o0, 0xee, c.n * esz(c.op));
    snap(c);
}
double g_worst;       // calibration aid: largest error seen relative to the tolerance
static void c10_after(Task & t, const Call & c)
{
    const bool f = c.op->f64; const int id = ref_id(c.op); const unsigned ar = nkinds(c.op);
    for (uint32_t i = 0; i < c.n; ++i) {
        long double a[5] = { 0, 0, 0, 0, 0 }; unsigned na = 0;
        if (id == R_add) a[na++] = ld(g_pre.data(), f, i);
        for (unsigned j = 0; j < ar; ++j) a[na++] = c.op->kinds[j] == 'v' ? ld(g_opnd[j].data(), f, i) : c.s[j];
        Ref r; ref_eval(id, f, na, a, r);
        for (int k = 0; k < r.nout; ++k) {
            double got = ld(arena() + (k ? c.o1 : c.o0), f, i);
            if (!ref_match(r, k, got)) {
                violation("kernel", "block %d of voice %d, %s: sample %u of output %d is %.17g, the operation gives %.17Lg (%s %Lg) for operands %.17Lg %.17Lg %.17Lg", int(t.next), t.id, cname(c).c_str(), i, k, got, r.v[k], r.exact ? "exact" : "tolerance", r.tol[k], a[0], a[1], a[2]);
                return;
            }
            if (!r.exact && r.tol[k] > 0) { double w = double(fabsl(got - r.v[k]) / r.tol[k]); if (w > g_worst) g_worst = w; }
        }
    }
    g_sh->checks += c.n;
    ev(hash_bytes(arena() + c.o0, c.n * esz(c.op)));
    if (getenv("SIM_CALIBRATE")) { fprintf(stderr, "W %s %g\n", op_id(c.op).c_str(), g_worst); g_worst = 0; }
}
static void exec_C10(Script & sc, Outcome & o) { run_stream(sc, o, nullptr, c10_before, c10_after); }
