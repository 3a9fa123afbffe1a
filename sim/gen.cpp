// Generates plans: which operations, arguments, faults and schedule a run has, as a function of property, seed and index only.
#include "core.h"
#include "ops.h"
#include "ref.h"
#include <algorithm>

enum Kind { K_NONE, KH, KM, KME, KE, KBO, KHO, KTO, KBF, KBFO, KSD, /* functions */ FH, FF, FM, FB, FO, FT, FX };
static bool is_obj(int k) { return k >= KH && k <= KSD; }
struct SlotState { int kind = 0, alg = 0, st = 0; int64_t interval = 30, t0 = 0; };

struct Gen {
    Plan &p;
    Rng r;
    bool thorough;
    SlotState own[8][8], sh[16];
    // profile
    int alglo = 0, alghi = 15;
    int maxlen = 4096, big = 0, bigmax = 1 << 17; // one in `big` lengths is log-uniform up to bigmax
    int nslot = 4;
    bool longrun = false;           // few lifecycle events, many operations
    int failnum = 0;                // of 100: allocation fault per operation
    bool clock = false;             // clock faults
    std::vector<int64_t> clocks_t0; // initial times in use
    int64_t iv_hint = 30;
    int64_t now = 0;
    bool fileflt = true;
    Gen(Plan &p, uint64_t s, bool th) : p(p), r(s), thorough(th) {}

    int64_t len() {
        static const int B[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 31, 32, 33, 54, 55, 56, 57, 58, 62, 63, 64, 65, 66, 71, 72, 73, 103, 104, 105, 110, 111, 112, 113, 118, 119, 120, 121, 126, 127, 128, 129,
            130, 134, 135, 136, 137, 143, 144, 145, 166, 167, 168, 169, 191, 192, 193, 239, 240, 241, 247, 248, 255, 256, 257, 271, 272, 273, 335, 336, 337, 1023, 1024, 1025, 2047, 2048, 2049};
        int64_t v;
        switch (r.below(8)) {
        case 0: case 1: case 2: v = B[r.below(sizeof B / sizeof *B)]; break;
        case 3: v = r.below(12); break;
        case 4: case 5: v = r.below(301); break;
        case 6: v = r.logu(12); break;
        default: v = r.below(70);
        }
        if (big && r.chance(1, big)) { v = r.chance(1, 3) ? around() : (int64_t)r.logu(17); return v > bigmax ? v % (bigmax + 1) : v; }
        return v > maxlen ? v % (maxlen + 1) : v;
    }
    int64_t around() { return (1LL << (8 + r.below(10))) + (int64_t)r.below(3) - 1; } // where counts of 8 to 16 bits wrap
    int64_t seed() { return (int64_t)(r.next() >> 20); }
    int64_t align() { return r.chance(1, 3) ? r.below(16) : 0; }
    int alg() { return (int)r.range(alglo, alghi); }
    int alg12() { return alglo == alghi && alglo < 12 ? alglo : (int)r.below(12); } // those with a block size and a fixed length
    int fixb = -1;
    int bkind() { return fixb >= 0 ? fixb : (int)r.below(5); }
    int64_t bits(int a) {
        int rate = (int)ref_block_size(a);
        switch (r.below(9)) {
        case 0: return 8 * r.below(6);
        case 1: return 8 * (rate + (int)r.below(5) - 2);
        case 2: return 8 * (r.below(4) * rate + r.below(3));
        case 3: return r.below(70);               // any bit count
        case 4: return r.below(8 * rate * 2 + 20);
        case 5: return 8 * r.below(rate * 3);
        case 6: return 8 * r.logu(r.chance(1, 30) ? 17 : 12);
        default: return is_xof(a) && a < A_RAWSHAKE256 ? 256 : 512;
        }
    }
    int64_t klen() {
        static const int B[] = {0, 1, 16, 20, 32, 63, 64, 65, 71, 72, 73, 103, 104, 105, 127, 128, 129, 135, 136, 137, 143, 144, 145, 200, 300};
        if (bigkeys && r.chance(1, 12)) return r.chance(1, 4) ? around() : (int64_t)r.logu(r.chance(1, 3) ? 17 : 13);
        return r.chance(1, 2) ? B[r.below(sizeof B / sizeof *B)] : r.chance(1, 2) ? r.below(200) : r.below(40);
    }
    bool bigkeys = false;
    int64_t digits() {
        int d = (int)r.below(10);
        if (d < 6) return 6 + r.below(3);
        if (d < 9) return 1 + r.below(12);
        return r.below(256);
    }
    int64_t interval() {
        switch (r.below(8)) {
        case 0: return 1;
        case 1: return 60;
        case 2: return 2 + r.below(9);
        case 3: return 1 + r.logu(31) % 0x7fffffff;
        case 4: return 0x7fffffff - r.below(3);
        case 5: return 1 + r.below(1000);
        default: return 30;
        }
    }
    int64_t t0() { // never after the lowest clock value
        int64_t mn = p.P("cmin");
        switch (r.below(6)) {
        case 0: return mn;
        case 1: return r.below(mn + 1);
        case 2: return r.chance(1, 3) ? -(int64_t)r.logu(33) : 0;
        default: return 0;
        }
    }
    int64_t counter() {
        switch (r.below(6)) {
        case 0: return (int64_t)r.next();
        case 1: return 0xffffffffLL + (int64_t)r.below(3);
        case 2: return (int64_t)(1ULL << r.below(64));
        case 3: return -1 - (int64_t)r.below(3);
        default: return r.below(40);
        }
    }
    int64_t dt() {
        switch (r.below(17)) {
        case 16: { static const int64_t M[] = {2, 10, 60, 128, 256, 1000, 32768, 65536, 1 << 24, 1LL << 31, 1LL << 32}; int64_t m = M[r.below(11)]; return iv_hint > 1000000 && m > 65536 ? iv_hint : (r.chance(1, 3) ? -m : m) * iv_hint; }
        case 0: case 1: return 1;
        case 2: return -1;
        case 3: return iv_hint;
        case 4: return -iv_hint;
        case 5: return r.range(0, iv_hint < 100000 ? iv_hint * 3 : iv_hint);
        case 6: return -r.range(0, iv_hint < 100000 ? iv_hint * 3 : iv_hint);
        case 7: { int64_t s = ((now % iv_hint) + iv_hint) % iv_hint; return iv_hint - s - (int64_t)r.below(2); } // to the last or first second of a step
        case 8: { int64_t s = ((now % iv_hint) + iv_hint) % iv_hint; return -s - (int64_t)r.below(2); }
        case 9: return (int64_t)r.logu(33);
        case 10: return -(int64_t)r.logu(33);
        case 11: return 0x100000000LL;
        case 12: return (1LL << 32) - now;
        case 13: return (1LL << 31) - now;
        default: return 0;
        }
    }
    int64_t dtin() { return r.chance(1, 2) ? 1 : r.chance(1, 2) ? iv_hint : dt(); }

    Op &put(int t, int code, std::initializer_list<int64_t> a) {
        Op o;
        o.t = t; o.code = code;
        int i = 0;
        for (auto v : a) o.a[i++] = v;
        p.ops.push_back(o);
        return p.ops.back();
    }
    void newobj(int t, int64_t slot, int kind, SlotState &s) {
        s = SlotState();
        s.kind = kind;
        switch (kind) {
        case KH: s.alg = alg(); put(t, H_INIT, {slot, s.alg}); break;
        case KM: s.alg = alg12(); put(t, M_INIT, {slot, s.alg}); if (!r.chance(1, 6)) put(t, M_KEY, {slot, klen(), seed()}); break;
        case KME: s.alg = alg12(); put(t, ME_NEW, {slot, s.alg, klen(), seed(), (int64_t)r.below(4)}); break;
        case KE: s.alg = alg(); put(t, E_NEW, {slot, s.alg}); break;
        case KBO: s.alg = bkind(); put(t, BO_NEW, {slot, s.alg}); break;
        case KHO: s.alg = alg12(); put(t, HO_NEW, {slot, alglo != alghi && r.chance(1, 3) ? A_SHA1 : s.alg, (int64_t)r.below(5), klen(), seed()}); break;
        case KTO: {
            s.alg = alg12();
            s.interval = interval();
            iv_hint = s.interval;
            put(t, TO_NEW, {slot, alglo != alghi && r.chance(1, 3) ? A_SHA1 : s.alg, (int64_t)r.below(5), klen(), seed(), s.interval});
            break;
        }
        case KBF: put(t, BF_INIT, {slot, 1 + (int64_t)r.below(72), seed()}); break;
        case KBFO: put(t, BFO_NEW, {slot, 1 + (int64_t)r.below(72), seed(), (int64_t)r.below(4)}); break;
        case KSD: put(t, SD_NEW, {slot, (int64_t)r.below(10), sdlen(), seed(), r.chance(1, 2) ? (int64_t)(r.below(20) | r.below(20) << 8) : 0}); break;
        }
    }
    int64_t mflags() { return r.chance(1, 3) ? 0 : r.below(16); }
    void useobj(int t, int64_t slot, SlotState &s) {
        bool shared = slot >= 100 && slot < 1000;
        int d = (int)r.below(100);
        switch (s.kind) {
        case KH:
            if (s.st == 2 || d < (longrun ? 1 : 5)) { s.alg = alg(); s.st = 0; put(t, H_INIT, {slot, s.alg}); }
            else if (s.st == 1) { if (d < 75) { int64_t b = bits(s.alg); put(t, H_DIG, {slot, b}); if (b % 8) s.st = 2; } else s.st = 2; }
            else if (d < (longrun ? 97 : 72)) put(t, H_UPD, {slot, len(), seed(), align()});
            else if (d < 80) { int to = (int)r.below(nslot); if (to != slot) { own[t][to] = s; put(t, H_COPY, {slot, to}); } }
            else { int64_t b = bits(s.alg); put(t, H_DIG, {slot, b}); s.st = is_xof(s.alg) && b % 8 == 0 ? 1 : 2; }
            break;
        case KM:
            if (s.st == 2 || d < (longrun ? 2 : 8)) { s.st = 0; if (r.chance(1, 4)) put(t, M_INIT, {slot, s.alg}); else put(t, M_KEY, {slot, klen(), seed()}); }
            else if (d < (longrun ? 92 : 65)) put(t, M_UPD, {slot, len(), seed(), align()});
            else if (d < 75) { int to = (int)r.below(nslot); if (to != slot) { own[t][to] = s; put(t, M_COPY, {slot, to}); } }
            else { put(t, M_DIG, {slot}); s.st = 2; }
            break;
        case KME:
            if (s.st == 2) newobj(t, slot, KME, s);
            else if (d < 65) put(t, ME_UPD, {slot, len(), seed(), (int64_t)(r.below(4) | (r.below(6) ? 0 : 4))});
            else { put(t, ME_DIG, {slot}); s.st = 2; }
            break;
        case KE:
            if (s.st == 2 || d < (longrun ? 2 : 8)) { put(t, E_RESET, {slot}); s.st = 0; if (!longrun && r.chance(1, 10)) { put(t, E_DEL, {slot}); s.kind = 0; } }
            else if (s.st == 0 && d < (longrun ? 90 : 65)) put(t, E_UPD, {slot, len(), seed(), (int64_t)(r.chance(1, 8) ? 4 : r.below(4))});
            else {
                int64_t b = r.chance(1, 4) ? 0 : r.chance(1, 6) ? (int64_t)(r.chance(1, 2) ? 1 << 14 : 8 * (ref_digest_size(s.alg) + r.below(3))) : bits(s.alg);
                put(t, E_DIG, {slot, b, (int64_t)r.below(2)});
                s.st = is_xof(s.alg) && b % 8 == 0 ? 1 : 2;
            }
            break;
        case KBO:
            if (!shared && d < (longrun ? 0 : 3)) { put(t, BO_DEL, {slot}); s.kind = 0; }
            else if (d < 50) put(t, BO_ENC, {slot, len(), seed(), (int64_t)r.below(4)});
            else put(t, BO_DEC, {slot, len(), seed(), seed(), mflags(), (int64_t)r.below(2)});
            break;
        case KHO:
            if (shared) put(t, HO_GEN, {slot, digits(), (int64_t)r.below(2)});
            else if (d < (longrun ? 0 : 3)) { put(t, HO_DEL, {slot}); s.kind = 0; }
            else if (d < 20) put(t, HO_SECRET, {slot, (int64_t)r.below(8), klen(), seed(), seed(), mflags()});
            else if (d < 50) put(t, HO_COUNTER, {slot, counter()});
            else put(t, HO_GEN, {slot, digits(), (int64_t)r.below(2)});
            break;
        case KTO:
            iv_hint = s.interval;
            if (d < (longrun ? 0 : 2)) { put(t, TO_DEL, {slot}); s.kind = 0; }
            else if (d < 9) put(t, TO_SECRET, {slot, (int64_t)r.below(8), klen(), seed(), seed(), mflags()});
            else if (d < 15) { s.interval = iv_hint = interval(); put(t, TO_INTERVAL, {slot, s.interval}); }
            else if (d < 21) { s.t0 = t0(); put(t, TO_INITIAL, {slot, s.t0}); }
            else if (d < 23) put(t, TO_COUNTER, {slot, counter()});
            else if (d < 70) put(t, TO_GEN, {slot, digits(), (int64_t)r.below(2)});
            else if (d < 86) put(t, TO_REM, {slot});
            else put(t, TO_UPD, {slot});
            break;
        case KBF:
            if (!shared && d < (longrun ? 2 : 10)) put(t, BF_INIT, {slot, 1 + (int64_t)r.below(72), seed()});
            else if (d < 80) put(t, BF_CRYPT, {slot, flen(), seed(), (int64_t)r.below(3), align()});
            else put(t, BF_UNIT, {slot, seed(), (int64_t)r.below(2)});
            break;
        case KBFO:
            if (!shared && d < (longrun ? 0 : 4)) { put(t, BFO_DEL, {slot}); s.kind = 0; }
            else put(t, BFO_CRYPT, {slot, flen(), seed(), (int64_t)r.below(3), (int64_t)(r.below(4) | (r.below(6) ? 0 : 4))});
            break;
        case KSD:
            if (shared) { if (d < 50) put(t, SD_READ, {slot, (int64_t)r.below(5)}); else put(t, SD_FROM, {(int64_t)r.below(nslot), slot, (int64_t)r.below(13)}); }
            else if (d < 4) { put(t, SD_DEL, {slot}); s.kind = 0; }
            else if (d < 14) newobj(t, slot, KSD, s);
            else if (d < 50) {
                int64_t to = r.below(nslot); // the source may have been moved from; it is made anew then
                put(t, SD_FROM, {to, slot, (int64_t)r.below(13)});
                if (to != slot) own[t][to] = s;
            }
            else if (d < 75) put(t, SD_EDIT, {slot, (int64_t)r.below(7), (int64_t)r.below(r.chance(1, 2) ? 24 : 200), seed()});
            else put(t, SD_READ, {slot, (int64_t)r.below(5)});
            break;
        }
    }
    int64_t sdlen() { return r.chance(1, 500) ? 540000 + (int64_t)r.below(200000) : r.chance(1, 2500) ? around() : r.chance(1, 3) ? r.below(20) : len(); } // 15 and 22 are where std::string goes to the heap
    int64_t flen() { if (big && r.chance(1, big)) return r.logu(13); return r.chance(1, 2) ? r.below(40) : r.chance(1, 2) ? 8 * r.below(20) : r.below(200); }
    void function(int t, int kind) {
        switch (kind) {
        case FH: {
            int a = alg();
            int d = (int)r.below(4);
            if (d < 2) put(t, H_ONE, {a, len(), seed(), align(), bits(a)});
            else if (d == 2) put(t, H_STR, {a, len(), seed(), 0, bits(a)});
            else put(t, H_MULTI, {a, (int64_t)(r.chance(1, 24) ? 13 + r.below(288) : r.chance(1, 4) ? r.below(13) : r.below(6)), seed(), 0, bits(a)});
            break;
        }
        case FF: {
            int a = alg();
            int64_t n = r.chance(1, 2) ? (int64_t)r.below(5) * 1024 + (r.chance(1, 2) ? 0 : r.range(-2, 2)) : len();
            if (n < 0) n = 0;
            if (big && r.chance(1, big)) n = r.chance(1, 2) ? (int64_t)r.logu(18) : r.chance(1, 4) ? around() : 1024 * (int64_t)r.below(128);
            put(t, H_FILE, {a, n, seed(), seed(), bits(a), (int64_t)(r.below(32) | (r.chance(1, 4) ? 32 * r.below(4) : 0)), fileflt && r.chance(1, 2) ? 1 + (int64_t)r.below(4) : 0});
            break;
        }
        case FM: put(t, r.chance(1, 2) ? M_ONE : M_GEN, {alg12(), klen(), seed(), len(), seed()}); break;
        case FB:
            if (r.chance(1, 2)) put(t, B_ENC, {bkind(), len(), seed(), align()});
            else put(t, B_DEC, {bkind(), len(), seed(), seed(), mflags()});
            break;
        case FO: put(t, OC_HOTP, {alglo != alghi && r.chance(1, 2) ? A_SHA1 : alg12(), klen(), seed(), counter(), digits(), (int64_t)r.below(5)}); break;
        case FT: {
            int64_t iv = interval();
            iv_hint = iv;
            put(t, OC_TOTP, {alglo != alghi && r.chance(1, 2) ? A_SHA1 : alg12(), klen(), seed(), digits(), iv, t0(), (int64_t)(r.below(5) | (r.chance(1, 5) ? 8 : 0))});
            break;
        }
        case FX:
            if (p.prop == "C20" && r.chance(1, 3)) put(t, X_HEX, {len() % 600, seed(), r.chance(1, 2) ? 2 : 8});
            else if (p.prop == "C19" ? r.chance(5, 6) : p.prop != "C20" && p.prop != "C18" && r.chance(1, 3)) {
                if (r.chance(1, 6)) put(t, X_SIZES, {(int64_t)r.below(16)});
                else put(t, X_ALGSTR, {(int64_t)r.below(r.chance(1, 4) ? 42 : 32), (int64_t)r.below(3), r.chance(1, 3) ? seed() : 0});
            } else if (p.prop == "C18" || r.chance(1, 2)) {
                int m = p.prop == "C20" ? 9 : (int)r.below(13);
                if (m == 10 && p.prop == "C22") m = 4;
                put(t, X_HEX, {r.chance(1, p.prop == "C18" ? 1500 : 400) ? 540000 + (int64_t)r.below(200000) : r.chance(1, p.prop == "C18" ? 200 : 2000) ? around() : r.chance(1, 3) ? (int64_t)r.below(9) : len() % 600, seed(), m, m == 10 && r.chance(1, 6)});
            }
            else put(t, X_SD, {len(), seed(), (int64_t)r.below(12)});
            break;
        }
    }
    static bool may_fail(int c) { // operations that report failure by bad_alloc
        switch (c) {
        case ME_NEW: case ME_UPD: case ME_DIG: case E_NEW: case E_UPD: case E_DIG: case E_RESET: case BO_NEW: case BO_ENC: case BO_DEC: case HO_NEW: case HO_SECRET: case HO_GEN:
        case TO_NEW: case TO_SECRET: case TO_GEN: case BFO_NEW: case BFO_CRYPT: case X_ALGSTR: case X_SD: case SD_NEW: case SD_FROM: case SD_EDIT: case SD_READ: return true;
        }
        return false;
    }
    static bool reads_clock(int c) { return c == TO_GEN || c == TO_REM || c == OC_TOTP; }
    void dress(size_t from) { // faults for the operations added since
        for (size_t i = from; i < p.ops.size(); i++) {
            Op &o = p.ops[i];
            bool mf = may_fail(o.code) || (o.code == X_HEX && (0xb0c >> o.a[2] % 13 & 1));
            if (mf && failnum && (int)r.below(100) < failnum) {
                o.fail = 1 + r.below(r.chance(1, 2) ? 2 : 9);
                o.fail2 = r.chance(1, 4) ? 1 + r.below(5) : 0;
                if (r.chance(1, 2)) { Op q = o; q.fail = q.fail2 = 0; p.ops.insert(p.ops.begin() + i + 1, q); i++; } // and once more without the fault
            }
            if (clock) {
                Op &o = p.ops[i];
                if (r.chance(3, 5)) { o.dt = dt(); now += o.dt; if (now < p.P("cmin")) now = p.P("cmin"); }
                if (reads_clock(o.code)) {
                    if (r.chance(1, 4)) o.d1 = dtin();
                    if (r.chance(1, 8)) o.d2 = dtin();
                    now += o.d1 + o.d2;
                    if (now < p.P("cmin")) now = p.P("cmin");
                }
            }
        }
    }
    int noise = 0, noisekind = 0;
    void flavour(int n, int &k) { // some plans: other parts of the library in between, big inputs, long histories
        if (r.chance(1, 6)) { noise = 2 + (int)r.below(4); static const int all[] = {KH, KM, KME, KE, KBO, KHO, KTO, KBF, KBFO, KSD, FH, FF, FM, FB, FO, FT, FX}; noisekind = r.chance(1, 2) ? all[r.below(17)] : 0; }
        if (!big && r.chance(1, 12)) big = 4 + (int)r.below(8);
        if (r.chance(1, 8)) bigkeys = true;
        if (n && r.chance(1, n)) { k = 10 + (int)r.below(60); longrun = true; big = 0; maxlen = std::min(maxlen, r.chance(1, 2) ? 70 : 300); if (r.chance(1, 2)) nslot = 1; }
    }
    void steps(int n, const std::vector<int> &kinds, int shkinds = 0) {
        if (r.chance(1, 120)) crowd(kinds);
        for (int i = 0; i < n; i++) {
            size_t from = p.ops.size();
            int t = (int)r.below(p.nthreads);
            int k = r.pick(kinds);
            if (noise && r.chance(1, noise)) { // something else of the library, on objects of its own; its results are not judged
                static const int all[] = {KH, KM, KME, KE, KBO, KHO, KTO, KBF, KBFO, KSD, FH, FF, FM, FB, FO, FT, FX};
                int nk = noisekind ? noisekind : all[r.below(17)], lo = alglo, hi = alghi, s = 4 + (int)r.below(2);
                alglo = 0; alghi = 15;
                if (is_obj(nk)) { SlotState &z = own[t][s]; if (z.kind && r.chance(3, 4)) useobj(t, s, z); else newobj(t, s, nk, z); }
                else function(t, nk);
                alglo = lo; alghi = hi;
                dress(from);
                for (size_t q = from; q < p.ops.size(); q++) p.ops[q].code |= NOISE;
                continue;
            }
            if (shkinds && r.chance(3, 5)) {
                int s = (int)r.below(shkinds);
                useobj(t, 100 + s, sh[s]);
            } else if (is_obj(k)) {
                int s = (int)r.below(nslot);
                SlotState &z = own[t][s];
                if (z.kind != k) { if (z.kind && std::find(kinds.begin(), kinds.end(), z.kind) != kinds.end() && r.chance(3, 4)) useobj(t, s, z); else newobj(t, s, k, z); }
                else useobj(t, s, z);
            } else function(t, k);
            dress(from);
        }
    }
    void sched(int nthr) {
        p.nthreads = nthr;
        p.sched_seed = r.next() >> 1;
        if (nthr == 1) { p.strategy = 0; return; }
        static const int S[] = {1, 1, 1, 2, 2, 3, 3, 4, 0};
        p.strategy = S[r.below(9)];
        static const int M[] = {3, 12, 40, 150, 600, 3000, 20000};
        p.par["mean"] = M[r.below(7)];
        p.par["depth"] = 1 + r.below(5);
        p.par["horizon"] = 100 + (int64_t)r.logu(16);
    }
    void setup(int kind, int n) {
        for (int i = 0; i < n; i++) {
            size_t f = p.ops.size();
            newobj(-1, 100 + i, kind, sh[i]);
            p.ops.resize(f + 1);
            if (kind == KHO) {
                p.ops[f].a[2] = r.below(4);
                if (r.chance(1, 2)) put(-1, HO_COUNTER, {100 + i, counter()});
            }
        }
    }
    void clocks() {
        static const int64_t C[] = {59, 1111111109, 1700000000, (1LL << 31) - 3, (1LL << 32) - 3, 20000000000LL, 1LL << 40, 0};
        int64_t c = r.chance(1, 2) ? C[r.below(8)] : r.chance(1, 2) ? 1700000000 + r.below(100000) : (int64_t)r.logu(36);
        p.par["clock"] = now = c;
        p.par["nsec"] = r.chance(1, 2) ? 0 : r.below(1000000000);
        p.par["cmin"] = r.chance(1, 2) ? 0 : r.chance(1, 3) ? c : r.below(c + 1);
        clock = true;
    }
    // patterns the random walk meets too rarely
    void absorb_exact(int t) { // ends exactly on a boundary of the padding
        int a = alg();
        int64_t b = (int64_t)ref_block_size(a), s = r.below(nslot);
        own[t][s] = SlotState();
        own[t][s].kind = KH; own[t][s].alg = a;
        put(t, H_INIT, {s, a});
        int64_t left = b * (int64_t)r.below(4) + (r.chance(1, 2) ? (int64_t)r.below(20) : b - (int64_t)r.below(20));
        while (left > 0) { int64_t n = r.chance(1, 3) ? left : 1 + r.below(left); put(t, H_UPD, {s, n, seed(), align()}); left -= n; }
        put(t, H_DIG, {s, bits(a)});
        own[t][s].st = 2;
    }
    // Many objects alive at once
    void crowd(const std::vector<int> &kinds) {
        std::vector<int> ok;
        for (int k : kinds) if (is_obj(k)) ok.push_back(k);
        if (ok.empty()) return;
        static const int N[] = {12, 20, 36, 70, 140, 300};
        int k = r.pick(ok), n = N[r.below(6)], t = (int)r.below(p.nthreads), keep = maxlen, kb = big, kf = failnum, kn = nslot;
        maxlen = std::min(maxlen, 130); big = 0; failnum = std::min(failnum, 5); nslot = 1;
        bool mixed = r.chance(1, 2);
        std::vector<SlotState> s(n);
        for (int i = 0; i < 3 * n; i++) {
            size_t from = p.ops.size();
            int j = i < n ? i : (int)r.below(n);
            if (mixed) k = s[j].kind ? s[j].kind : r.pick(ok);
            if (!s[j].kind) newobj(t, 1000 + j, k, s[j]); else useobj(t, 1000 + j, s[j]);
            dress(from);
        }
        maxlen = keep; big = kb; failnum = kf; nslot = kn;
        if (p.nthreads > 1) p.par["mean"] = std::max<int64_t>(p.par["mean"], 600);
    }
    // Endurance: one operation on one object again and again, as a server does that runs for months
    static bool repeatable(int c) {
        switch (c) {
        case H_UPD: case H_ONE: case M_UPD: case M_ONE: case ME_UPD: case ME_NEW: case E_UPD: case E_DIG: case E_RESET: case B_ENC: case B_DEC: case BO_ENC: case BO_DEC: case BO_NEW: case OC_HOTP: case HO_GEN:
        case SD_NEW: case SD_READ: case HO_COUNTER: case TO_GEN: case TO_REM: case TO_UPD: case TO_NEW: case TO_SECRET: case HO_SECRET: case OC_TOTP: case BF_CRYPT: case BF_UNIT: case BFO_CRYPT: case H_FILE: case H_DIG: return true;
        }
        return false;
    }
    void endurance() {
        std::vector<size_t> c;
        for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].t >= 0 && repeatable(p.ops[i].code & 255) && (!(p.ops[i].code & NOISE) || r.chance(1, 4))) c.push_back(i);
        if (c.empty()) return;
        int64_t n = r.chance(1, 2) ? 4 + r.below(300) : r.chance(1, thorough ? 6 : 12) && p.nthreads == 1 ? 65530 + r.below(40) : r.chance(1, 4) ? 4000 + r.below(200) : 1000 + r.below(100);
        if (p.nthreads > 1 || p.prop == "C15") n %= 1100;
        for (int k = 1 + (n < 400 ? (int)r.below(3) : 0); k > 0; k--) {
            Op &o = p.ops[r.pick(c)];
            o.rep = n;
            int c = o.code & 255;
            if (n > 1500 && (c == H_FILE || c == BO_NEW || c == ME_NEW || c == TO_NEW)) o.rep = n % 1500;
            if (c == SD_READ && n > 300) for (auto &q : p.ops) if ((q.code & 255) == SD_NEW && q.a[2] > 4000) { o.rep = n % 300; break; }
            if (n > 20) {
                auto cut = [&](int64_t &v, int64_t lim) { if (v > lim) v %= lim + 1; };
                int64_t lim = n > 5000 ? 24 : 130;
                switch (c) {
                case H_UPD: case H_ONE: case M_UPD: case ME_UPD: case E_UPD: case B_ENC: case B_DEC: case BO_ENC: case BO_DEC: case OC_HOTP: case OC_TOTP: case BF_CRYPT: case BFO_CRYPT: case M_ONE: case H_FILE: cut(o.a[1], lim); break;
                case HO_SECRET: case TO_SECRET: case ME_NEW: cut(o.a[2], lim); break;
                case TO_NEW: cut(o.a[3], lim); break;
                case SD_NEW: cut(o.a[2], lim); break;
                }
                if (c == M_ONE) cut(o.a[3], lim);
                if (c == H_ONE || c == H_FILE) cut(o.a[4], 2048);
                if (c == H_DIG || c == E_DIG) { if (o.a[1] % 8) o.rep = 0; cut(o.a[1], 2048); o.a[1] &= ~7; }
                for (int64_t *d : {&o.dt, &o.d1, &o.d2}) if (*d > 100000 || *d < -100000) *d = 0;
                if (n > 1500) o.fail = o.fail2 = 0;
            }
        }
        if (n > 40 && p.nthreads > 1) p.par["mean"] = std::max<int64_t>(p.par["mean"], n > 300 ? 20000 : 3000);
    }
    // Arguments that nearly repeat earlier ones: what a wrong key of a cache, or a wrong test for a change, takes for the same
    void echo() {
        struct Arg { int op, len, seed, group; };
        static const Arg A[] = {{H_UPD, 1, 2, 0}, {E_UPD, 1, 2, 0}, {H_ONE, 1, 2, 0}, {H_STR, 1, 2, 0}, {H_FILE, 1, 2, 0}, {M_UPD, 1, 2, 0}, {ME_UPD, 1, 2, 0}, {M_ONE, 3, 4, 0}, {M_GEN, 3, 4, 0},
            {M_KEY, 1, 2, 1}, {ME_NEW, 2, 3, 1}, {M_ONE, 1, 2, 1}, {M_GEN, 1, 2, 1}, {BO_ENC, 1, 2, 2}, {BO_DEC, 1, 2, 2}, {B_ENC, 1, 2, 2}, {B_DEC, 1, 2, 2},
            {HO_NEW, 3, 4, 3}, {TO_NEW, 3, 4, 3}, {HO_SECRET, 2, 3, 3}, {TO_SECRET, 2, 3, 3}, {OC_HOTP, 1, 2, 3}, {OC_TOTP, 1, 2, 3}, {BF_INIT, 1, 2, 4}, {BFO_NEW, 1, 2, 4},
            {BF_CRYPT, 1, 2, 5}, {BFO_CRYPT, 1, 2, 5}, {SD_NEW, 2, 3, 6}, {X_SD, 0, 1, 6}, {X_HEX, 0, 1, 7}};
        struct Seen { size_t op; const Arg *a; };
        std::vector<Seen> seen[8];
        for (size_t i = 0; i < p.ops.size(); i++)
            for (const Arg &a : A) {
                if (a.op != (p.ops[i].code & 255)) continue;
                Op &o = p.ops[i];
                auto &v = seen[a.group];
                if (!v.empty() && r.chance(1, 2)) {
                    Seen &s = v[r.chance(1, 2) ? v.size() - 1 : r.below(v.size())];
                    Op &q = p.ops[s.op];
                    int64_t base = q.a[s.a->seed] & 0xffffffffffffLL;
                    o.a[a.len] = q.a[s.a->len];
                    int k = (int)r.below(16);
                    if (k == 0) o.a[a.seed] = q.a[s.a->seed];                                       // the same
                    else if (k == 13) { o.a[a.seed] = base; if (o.a[a.len] > 1) o.a[a.len] -= 1 + r.below(o.a[a.len] - 1); } // a part
                    else if (k == 6) { int64_t z = (int64_t)r.below(8) << 4; q.a[s.a->seed] = base | (z | 5) << 48; o.a[a.seed] = base | (z | 6) << 48; }
                    else o.a[a.seed] = base | (int64_t)(k | r.below(2000) << 4) << 48;
                    if (a.op == BO_DEC || a.op == B_DEC) { // with the same disturbance of the text
                        if ((q.code & 255) == BO_DEC || (q.code & 255) == B_DEC) { o.a[3] = q.a[3]; o.a[4] = q.a[4]; }
                    }
                }
                v.push_back({i, &a});
            }
        // counters that differ in the upper part only
        for (size_t i = 1; i < p.ops.size(); i++)
            if ((p.ops[i].code & 255) == HO_COUNTER && r.chance(1, 2))
                for (size_t k = i; k-- > 0;)
                    if ((p.ops[k].code & 255) == HO_COUNTER) { p.ops[i].a[1] = p.ops[k].a[1] ^ (int64_t)(1ULL << r.below(64)); break; }
    }
    // One thread after the other makes the calls
    void relay() {
        int n = 2 + (int)r.below(r.chance(1, 4) ? 6 : 3), mode = (int)r.below(4), by = 0;
        p.par["relay"] = n;
        size_t k = 0, all = p.ops.size();
        for (auto &o : p.ops) {
            switch (mode) {
            case 0: by = (int)r.below(n); break;
            case 1: if (r.chance(1, 3)) by = (int)r.below(n); break; // some calls at a stretch
            case 2: by = (int)(k * n / all); break; // each thread ends before the next one goes on
            default: by = made(o.code & 255) ? 0 : 1 + (int)r.below(n - 1); // one makes the objects, others use them
            }
            o.by = by;
            k++;
        }
    }
    static bool made(int c) {
        switch (c) {
        case H_INIT: case M_INIT: case M_KEY: case ME_NEW: case E_NEW: case BO_NEW: case HO_NEW: case TO_NEW: case BF_INIT: case BFO_NEW: case SD_NEW: return true;
        }
        return false;
    }
    void junkpar() {
        p.par["jseed"] = (int64_t)(r.next() >> 1);
        p.par["jmode"] = r.below(4);
        p.par["jval"] = 1 + r.below(40);
        if (r.chance(1, 3)) p.par["recycle"] = 1;
    }
};
void gen_plan(const std::string &prop, uint64_t seed, uint64_t index, bool thorough, Plan &p) {
    p = Plan();
    p.prop = prop;
    p.index = index;
    int id = atoi(prop.c_str() + 1);
    Gen g(p, Rng::mix(seed * 0x9e3779b97f4a7c15ULL + 17) ^ Rng::mix(index * 0x2545f4914f6cdd1dULL + id * 1000003), thorough);
    Rng &r = g.r;
    p.seed = r.next() >> 1;
    g.junkpar();
    int more = thorough && r.chance(1, 4) ? 3 : 1;
    if (id == 9 || id == 10 || id == 11) g.nslot = 2;
    if (id != 4 && id != 15 && id != 16) g.flavour(thorough ? 30 : 60, more);
    else if (r.chance(1, 12)) { g.big = 6; g.bigkeys = true; }
    if (id == 6 || id == 14) g.noise = 0; // everything is theirs
    switch (id) {
    case 1: case 2: {
        if (id == 1) { g.alglo = 0; g.alghi = 7; } else { g.alglo = 8; g.alghi = 15; if (r.chance(1, 2)) g.alglo = 12; }
        if (r.chance(1, 4)) g.alglo = g.alghi = (int)r.range(g.alglo, g.alghi);
        g.sched(r.chance(2, 3) ? 1 : 1 + (int)r.below(3));
        if (r.chance(1, 5) && !g.longrun) g.big = 6;
        if (r.chance(1, 2)) g.absorb_exact(0);
        g.steps((5 + (int)r.below(25)) * more, r.chance(1, 4) ? std::vector<int>{FH} : std::vector<int>{KH, KH, KH, FH});
        break;
    }
    case 3: {
        g.sched(r.chance(3, 4) ? 1 : 2);
        g.steps((3 + (int)r.below(8)) * more, {FF});
        break;
    }
    case 4: {
        p.par["frozen"] = 1;
        p.par["clock"] = r.chance(1, 2) ? 1700000000 : (int64_t)r.logu(34);
        g.maxlen = 700;
        g.sched(2 + (int)r.below(3));
        if (p.strategy == 0) p.strategy = 1;
        static const int all[] = {KH, KM, KME, KE, KBO, KHO, KTO, KBF, KBFO, KSD, FH, FF, FM, FB, FO, FT, FX};
        std::vector<int> kinds;
        int focus = (int)r.below(10);
        if (focus < 6) kinds.push_back(all[r.below(17)]);
        else if (focus < 8) { kinds.push_back(all[r.below(17)]); kinds.push_back(all[r.below(17)]); }
        else kinds.assign(all, all + 17);
        if (r.chance(1, 2)) { g.alglo = g.alghi = (int)r.below(16); g.fixb = g.alglo % 5; }
        if (!g.longrun) g.nslot = 2;
        g.steps(p.nthreads * (2 + (int)r.below(5)) * more, kinds);
        break;
    }
    case 5: {
        g.sched(2 + (int)r.below(3));
        if (p.strategy == 0) p.strategy = 3;
        g.maxlen = r.chance(1, 2) ? 60 : 900;
        g.bigmax = 1 << 14;
        int n = 1 + (r.chance(1, 3) ? (int)r.below(3) : 0);
        g.setup(KBO, n);
        g.steps(p.nthreads * (2 + (int)r.below(5)) * more, {KBO}, r.chance(1, 3) ? n : 0);
        for (auto &o : p.ops) if (o.t >= 0 && (o.code == BO_NEW || o.code == BO_DEL) && r.chance(3, 4)) o.code = BO_ENC, o.a[0] = 100 + r.below(n), o.a[1] = g.len(), o.a[2] = g.seed();
        for (auto &o : p.ops) if (o.t >= 0 && o.a[0] < 100 && r.chance(4, 5)) o.a[0] = 100 + r.below(n);
        break;
    }
    case 6: {
        g.maxlen = 600;
        g.failnum = 50;
        int shn = 0;
        if (r.chance(1, 2)) g.sched(1); else { g.sched(2 + (int)r.below(2)); }
        if (r.chance(1, 2)) { static const int K[] = {KBO, KBO, KBFO, KHO}; int k = K[r.below(4)]; shn = 1 + (int)r.below(2); g.setup(k, shn); }
        static const std::vector<int> sets[] = {{KBO}, {KE}, {KME}, {KHO, KTO}, {KBFO}, {FX, KSD}, {KBO, KE, KME, KHO, KTO, KBFO, FX}, {KBO, KE, KME, KHO, KTO, KBFO, KSD, FX}};
        g.steps((6 + (int)r.below(14)) * more, sets[r.below(8)], shn);
        break;
    }
    case 7: {
        g.sched(r.chance(2, 3) ? 1 : 2 + (int)r.below(2));
        g.steps((5 + (int)r.below(20)) * more, {KM, KM, KM, KME, KME, FM});
        break;
    }
    case 8: {
        g.failnum = r.chance(1, 4) ? 25 : 0;
        int shn = 0;
        if (r.chance(1, 2)) g.sched(1);
        else { g.sched(2 + (int)r.below(2)); shn = 1 + (int)r.below(2); g.setup(KHO, shn); }
        if (!g.longrun) g.nslot = 2;
        g.steps((8 + (int)r.below(20)) * more, {KHO, KHO, KHO, FO}, shn);
        break;
    }
    case 9: case 10: case 11: {
        g.clocks();
        g.sched(r.chance(2, 3) ? 1 : 2 + (int)r.below(2));
        g.failnum = id == 9 && r.chance(1, 5) ? 20 : 0;
        if (!g.longrun) g.nslot = 2;
        g.steps((10 + (int)r.below(30)) * more, id == 10 ? std::vector<int>{FT} : std::vector<int>{KTO});
        break;
    }
    case 12: {
        g.sched(r.chance(3, 4) ? 1 : 2);
        if (!g.longrun) g.nslot = 2;
        if (r.chance(1, 6) && !g.longrun) { g.big = 8; g.bigmax = 1 << 15; }
        if (r.chance(1, 3)) g.maxlen = 12; // every remainder, every cut
        g.steps((8 + (int)r.below(25)) * more, {KBO, KBO, FB});
        break;
    }
    case 13: {
        int shn = 0;
        if (r.chance(1, 3)) g.sched(1);
        else { g.sched(2 + (int)r.below(3)); shn = 1; g.setup(r.chance(1, 2) ? KBF : KBFO, shn); if (r.chance(1, 3)) { p.ops.back().a[0] = 100; } }
        if (!g.longrun) g.nslot = 2;
        g.steps((5 + (int)r.below(12)) * more, {KBF, KBFO}, shn);
        break;
    }
    case 14: {
        static const std::vector<int> sets[] = {{KH, FH}, {KM, FM, KME}, {KE}, {KBO, FB}, {FB}, {KHO, FO, KTO, FT}, {KBF, KBFO}, {FF}, {FX, KSD}, {KH, KM, KME, KE, KBO, KHO, KTO, KBF, KBFO, KSD, FH, FF, FM, FB, FO, FT, FX}};
        if (r.chance(1, 3)) g.clocks();
        g.failnum = r.chance(1, 3) ? 25 : 0;
        g.sched(r.chance(2, 3) ? 1 : 2 + (int)r.below(2));
        int shn = 0;
        if (p.nthreads > 1 && r.chance(1, 3)) { shn = 1; static const int K[] = {KBO, KBFO, KBF, KHO}; g.setup(K[r.below(4)], 1); }
        g.nslot = 3;
        g.steps((6 + (int)r.below(20)) * more, sets[r.below(10)], shn);
        break;
    }
    case 15: {
        static const std::vector<int> sets[] = {{KH, FH}, {KM, FM, KME}, {KE}, {KBO, FB}, {KHO, FO, KTO, FT}, {KBF, KBFO}, {FF}, {FX, KSD}, {KH, KM, KME, KE, KBO, KHO, KTO, KBF, KBFO, KSD, FH, FF, FM, FB, FO, FT, FX}};
        if (r.chance(1, 3)) g.clocks();
        g.failnum = r.chance(1, 3) ? 25 : 0;
        g.sched(1);
        g.maxlen = 700;
        g.nslot = 3;
        if (r.chance(1, 4)) g.maxlen = 3;
        g.steps((5 + (int)r.below(15)) * more, sets[r.below(9)]);
        break;
    }
    case 16: {
        g.maxlen = 600;
        g.failnum = r.chance(2, 3) ? 30 : 0;
        g.sched(r.chance(3, 4) ? 1 : 2);
        static const std::vector<int> sets[] = {{KBO}, {KE}, {KME}, {KHO, KTO}, {KBFO}, {FX, KSD}, {KBO, KE, KME, KHO, KTO, KBFO, KSD, FX}, {FB, FM, FO, FT, FF, FH}};
        g.steps((5 + (int)r.below(12)) * more, sets[r.below(8)]);
        break;
    }
    case 17: {
        g.failnum = r.chance(1, 3) ? 20 : 0;
        g.sched(r.chance(3, 4) ? 1 : 2);
        g.nslot = 3;
        if (r.chance(1, 3)) g.alglo = g.alghi = (int)r.below(16);
        g.steps((8 + (int)r.below(25)) * more, {KE});
        break;
    }
    case 20: {
        g.failnum = r.chance(1, 2) ? 25 : 0;
        int shn = 0;
        if (r.chance(2, 3)) g.sched(1);
        else { g.sched(2 + (int)r.below(3)); if (r.chance(2, 3)) { shn = 1 + (int)r.below(2); g.setup(KSD, shn); } }
        g.maxlen = r.chance(1, 3) ? 40 : 700;
        if (!g.longrun) g.nslot = 2 + (int)r.below(3);
        g.steps((8 + (int)r.below(30)) * more, {KSD, KSD, KSD, KSD, FX}, shn);
        break;
    }
    case 18: {
        g.failnum = r.chance(1, 3) ? 20 : 0;
        if (r.chance(1, 2)) g.sched(1); else g.sched(2 + (int)r.below(3));
        g.maxlen = r.chance(1, 3) ? 20 : 600;
        g.steps((8 + (int)r.below(25)) * more, {FX});
        break;
    }
    case 19: {
        g.failnum = r.chance(1, 3) ? 25 : 0;
        if (r.chance(1, 3)) g.sched(1); else g.sched(2 + (int)r.below(3));
        if (!g.longrun) g.nslot = 2;
        g.maxlen = 100;
        g.steps((6 + (int)r.below(20)) * more, r.chance(1, 2) ? std::vector<int>{FX} : std::vector<int>{FX, FX, FX, KE, KME});
        break;
    }
    case 22: {
        static const std::vector<int> sets[] = {{KH, FH}, {KM, FM, KME}, {KE}, {KBO, FB}, {FF}, {KHO, FO, KTO, FT}, {KBF, KBFO}, {FX, KSD}, {KH, KM, KME, KE, KBO, KHO, KTO, KBF, KBFO, KSD, FH, FF, FM, FB, FO, FT, FX}};
        if (r.chance(1, 3)) g.clocks();
        g.failnum = r.chance(1, 2) ? 30 : 0;
        if (r.chance(1, 2)) g.sched(1); else g.sched(2 + (int)r.below(3));
        g.maxlen = 300;
        if (!g.longrun) g.nslot = 2;
        g.steps((5 + (int)r.below(15)) * more, sets[r.below(9)]);
        break;
    }
    case 21: {
        static const std::vector<int> sets[] = {{KH, KE}, {KM, KME}, {KE}, {KME}, {KBO}, {KHO}, {KTO}, {KBF, KBFO}, {KSD, FX}, {KH, KM, KME, KE, KBO, KHO, KTO, KBF, KBFO, KSD, FH, FM, FB, FO, FT, FX}};
        if (r.chance(1, 3)) g.clocks();
        g.failnum = r.chance(1, 4) ? 20 : 0;
        g.sched(1);
        g.nslot = 1 + (int)r.below(3);
        if (r.chance(1, 3)) g.alglo = g.alghi = (int)r.below(16);
        g.steps((8 + (int)r.below(25)) * more, sets[r.below(10)]);
        break;
    }
    }
    if (p.ops.size() > 3000) p.ops.resize(3000);
    if (r.chance(1, 4)) g.echo();
    if (r.chance(1, 40)) g.endurance();
    if (p.nthreads == 1 && id != 4 && id != 5 && (id == 21 || r.chance(1, 7))) g.relay();
    if (p.nthreads > 1 && (g.longrun || g.bigkeys)) p.par["mean"] = std::max<int64_t>(p.par["mean"], g.longrun ? 3000 : 150); // a switch costs microseconds
}
