#include "vp_harness.h"
#include <memory>
#include "core/include/vec3Operation.h"
#include "core/include/arrayUtils.h"
#include "core/include/AlignedArray.h"
#include "core/include/vecx.h"
#include "core/include/hardware.h"
#include <unordered_map>
using namespace matersdk;
// array allocations start on an 8-byte boundary only (every second one): alignment has to come from the code under test
static std::unordered_map<void*, void*>& blocks() { static auto* m = new std::unordered_map<void*, void*>(); return *m; }
static size_t nblocks = 0;
void* operator new[](size_t n) { size_t off = (nblocks++ & 1) * 8; char* p = (char*)malloc(n + off); if (!p) throw std::bad_alloc(); blocks()[p + off] = p; return p + off; }
void operator delete[](void* p) noexcept { if (!p) return; auto it = blocks().find(p); if (it == blocks().end()) { fprintf(stderr, "ERROR: delete[] of a pointer that new[] did not return\n"); abort(); } void* q = it->second; blocks().erase(it); free(q); }
void operator delete[](void* p, size_t) noexcept { operator delete[](p); }
template <class T> static void v3(vph::In& in, vph::Out& out) {
    // exact-size heap buffers so that any overrun is seen
    T* a = (T*)malloc(3 * sizeof(T)); T* b = (T*)malloc(3 * sizeof(T));
    for (int k = 0; k < 3; k++) a[k] = in.d();
    for (int k = 0; k < 3; k++) b[k] = in.d();
    out.put((double)vec3Operation::dot<T>(a, b));
    T* c = vec3Operation::cross<T>(a, b); out.arr(c, 3); free(c);
    c = vec3Operation::normalize<T>(a); out.arr(c, 3); free(c);
    out.put((double)vec3Operation::norm<T>(a));
    out.arr(a, 3); out.arr(b, 3);
    free(a); free(b);
}
CMD(v3d) { v3<double>(in, out); }
CMD(v3f) { v3<float>(in, out); }
CMD(outer) {
    int nju = in.i(); double* a = (double*)malloc(24); for (int k = 0; k < 3; k++) a[k] = in.d();
    double** r = vec3Operation::RecursionOuterProduct<double>(nju, a);
    int n = 1; for (int k = 1; k < nju; k++) n *= 3;
    out.put2(r, n, 3); out.arr(a, 3);
    for (int k = 0; k < n; k++) free(r[k]); free(r); free(a);
}
static Vec3 rv(vph::In& in) { double x = in.d(), y = in.d(), z = in.d(); return Vec3(x, y, z); }
static void pv(vph::Out& out, const Vec3& v) { out.open(); out.put(v[0]); out.put(v[1]); out.put(v[2]); out.close(); }
CMD(vec3) {
    Vec3 a = rv(in), b = rv(in); double s = in.d();
    pv(out, Vec3()); pv(out, +a); pv(out, a + b); pv(out, -a); pv(out, a - b); pv(out, a * s); pv(out, s * a); pv(out, a / s);
    { Vec3 c = a; Vec3& r = (c += b); out.put(&r == &c); pv(out, c); }
    { Vec3 c = a; Vec3& r = (c -= b); out.put(&r == &c); pv(out, c); }
    { Vec3 c = a; Vec3& r = (c *= s); out.put(&r == &c); pv(out, c); }
    { Vec3 c = a; Vec3& r = (c /= s); out.put(&r == &c); pv(out, c); }
    { Vec3 c = a; c += c; pv(out, c); }
    { Vec3 c = a; c -= c; pv(out, c); }
    out.put(a.dot(b)); pv(out, a.cross(b)); out.put(a == b); out.put(a != b); { Vec3 c = a; out.put(c == a); out.put(c != a); }
    { Vec3 c = a; c[1] = s; pv(out, c); }
    std::ostringstream o; o << a; out.put(o.str());
    pv(out, a); pv(out, b);
}
template <class T> static void arrays(vph::In& in, vph::Out& out) {
    int nd = in.i(); int s[5]; for (int k = 0; k < nd; k++) s[k] = in.i(); bool init = in.i();
    // every element gets a distinct value; reading all back shows that no two share storage
    size_t bad0 = 0, bad1 = 0, n = 0;
    if (nd == 3) {
        T*** p = arrayUtils::allocate3dArray<T>(s[0], s[1], s[2], init);
        for (int a = 0; a < s[0]; a++) for (int b = 0; b < s[1]; b++) for (int c = 0; c < s[2]; c++) { if (init && p[a][b][c] != 0) bad0++; p[a][b][c] = n++; }
        n = 0; for (int a = 0; a < s[0]; a++) for (int b = 0; b < s[1]; b++) for (int c = 0; c < s[2]; c++) if (p[a][b][c] != (T)(n++)) bad1++;
        out.put(vph::captured([&] { arrayUtils::show3dArray(p, s[0], s[1], s[2]); }));
        arrayUtils::free3dArray(p, s[0], s[1]);
    } else if (nd == 4) {
        T**** p = arrayUtils::allocate4dArray<T>(s[0], s[1], s[2], s[3], init);
        for (int a = 0; a < s[0]; a++) for (int b = 0; b < s[1]; b++) for (int c = 0; c < s[2]; c++) for (int d = 0; d < s[3]; d++) { if (init && p[a][b][c][d] != 0) bad0++; p[a][b][c][d] = n++; }
        n = 0; for (int a = 0; a < s[0]; a++) for (int b = 0; b < s[1]; b++) for (int c = 0; c < s[2]; c++) for (int d = 0; d < s[3]; d++) if (p[a][b][c][d] != (T)(n++)) bad1++;
        out.put(vph::captured([&] { arrayUtils::show4dArray(p, s[0], s[1], s[2], s[3]); }));
        arrayUtils::free4dArray(p, s[0], s[1], s[2]);
    } else {
        T***** p = arrayUtils::allocate5dArray<T>(s[0], s[1], s[2], s[3], s[4], init);
        for (int a = 0; a < s[0]; a++) for (int b = 0; b < s[1]; b++) for (int c = 0; c < s[2]; c++) for (int d = 0; d < s[3]; d++) for (int e = 0; e < s[4]; e++) { if (init && p[a][b][c][d][e] != 0) bad0++; p[a][b][c][d][e] = n++; }
        n = 0; for (int a = 0; a < s[0]; a++) for (int b = 0; b < s[1]; b++) for (int c = 0; c < s[2]; c++) for (int d = 0; d < s[3]; d++) for (int e = 0; e < s[4]; e++) if (p[a][b][c][d][e] != (T)(n++)) bad1++;
        out.put(vph::captured([&] { arrayUtils::show5dArray(p, s[0], s[1], s[2], s[3], s[4]); }));
        arrayUtils::free5dArray(p, s[0], s[1], s[2], s[3]);
    }
    out.put(bad0); out.put(bad1); out.put(n);
}
CMD(arrd) { arrays<double>(in, out); }
CMD(arrf) { arrays<float>(in, out); }

// operation histories on AlignedArray: ops are triples (op, a, b)
template <class T> static void aligned(vph::In& in, vph::Out& out) {
    std::vector<std::unique_ptr<AlignedArray<T>>> v;
    while (in.more()) {
        int op = in.i(), a = in.i(), b = in.i();
        size_t n = v.size();
        if (op == 0) v.emplace_back(new AlignedArray<T>());
        else if (op == 1) v.emplace_back(new AlignedArray<T>(a));
        else if (n == 0) continue;
        else if (op == 2) { AlignedArray<T>& x = *v[a % n]; int keep = x.size(); x.resize(b); if (keep != b) for (int k = 0; k < x.size(); k++) x[k] = (T)-1; }
        else if (op == 3) { AlignedArray<T>& x = *v[a % n]; for (int k = 0; k < x.size(); k++) x[k] = (T)(b + k); }
        else if (op == 4) { auto* x = new AlignedArray<T>(*v[a % n]); v.emplace_back(x); }
        else if (op == 5) { *v[a % n] = *v[b % n]; }
        else if (op == 6) { v.erase(v.begin() + a % n); }
        else if (op == 7) { std::vector<AlignedArray<T>> w; for (auto& x : v) w.push_back(*x); v.clear(); for (auto& x : w) v.emplace_back(new AlignedArray<T>(x)); }
        if (op == 1) { auto& x = *v.back(); for (int k = 0; k < x.size(); k++) x[k] = (T)-1; }
    }
    for (auto& x : v) {
        out.open(); out.put(x->size());
        const AlignedArray<T>& c = *x;
        out.put(x->size() == 0 ? 0 : (int)(((unsigned long)&c[0]) % 16));
        for (int k = 0; k < x->size(); k++) out.put((double)c[k]);
        out.close();
    }
}
CMD(alignd) { aligned<double>(in, out); }
CMD(alignf) { aligned<float>(in, out); }
CMD(aligni) { aligned<int>(in, out); }
CMD(nproc) { out.put(getNumProcessorsOnln()); }
VPH_MAIN
