// Matrix driver: state, number conversion and logging shared by the interpreter and the generated
// functions (one per shape of expression, see tools/gen_matrix.py).
#pragma once
#include "common.h"
#include <memory>
#include <optional>
#include "cnn_from_scratch/Matrix/SimpleMatrix.h"
#include "cnn_from_scratch/Matrix/MatrixMath.h"
#include "cnn_from_scratch/imageUtil.h"
#include <sstream>
#include <unistd.h>

using vj::Val;
using namespace my_cnn;

using u8 = unsigned char;

struct Cell {
    std::string t;
    SimpleMatrix<int> i;
    SimpleMatrix<float> f;
    SimpleMatrix<double> d;
    SimpleMatrix<u8> u;
};
struct VCell {
    std::string t;                       // empty: no view
    std::unique_ptr<SubMatrixView<int>> i;
    std::unique_ptr<SubMatrixView<float>> f;
    std::unique_ptr<SubMatrixView<double>> d;
    std::unique_ptr<SubMatrixView<u8>> u;
};

template<typename T> SimpleMatrix<T>& pick(Cell& c);
template<> inline SimpleMatrix<int>& pick<int>(Cell& c){return c.i;}
template<> inline SimpleMatrix<float>& pick<float>(Cell& c){return c.f;}
template<> inline SimpleMatrix<double>& pick<double>(Cell& c){return c.d;}
template<> inline SimpleMatrix<u8>& pick<u8>(Cell& c){return c.u;}
template<typename T> std::unique_ptr<SubMatrixView<T>>& pickv(VCell& c);
template<> inline std::unique_ptr<SubMatrixView<int>>& pickv<int>(VCell& c){return c.i;}
template<> inline std::unique_ptr<SubMatrixView<float>>& pickv<float>(VCell& c){return c.f;}
template<> inline std::unique_ptr<SubMatrixView<double>>& pickv<double>(VCell& c){return c.d;}
template<> inline std::unique_ptr<SubMatrixView<u8>>& pickv<u8>(VCell& c){return c.u;}
template<typename T> const char* tname();
template<> inline const char* tname<int>(){return "int";}
template<> inline const char* tname<float>(){return "flt";}
template<> inline const char* tname<double>(){return "dbl";}
template<> inline const char* tname<u8>(){return "u8";}

struct Ctx {
    double S = 1;
    std::vector<std::unique_ptr<Cell>> cells;
    std::vector<std::unique_ptr<VCell>> views;

    template<typename T> SimpleMatrix<T>& mat(const Val& k){
        Cell& c = *cells[k.i()];
        if (c.t != tname<T>()) harnessError("matrix " + std::to_string(k.i()) + " is not " + tname<T>());
        return pick<T>(c);
    }
    template<typename T> SubMatrixView<T>& view(const Val& w){
        VCell& c = *views[w.i()];
        if (c.t != tname<T>()) harnessError("view type");
        return *pickv<T>(c);
    }
    template<typename T> T num(const Val& x) const {return static_cast<T>(x.d()/S);}
    template<typename F> auto withMat(const Val& k, F f){
        Cell& c = *cells[k.i()];
        if (c.t == "int") return f(c.i);
        if (c.t == "flt") return f(c.f);
        if (c.t == "dbl") return f(c.d);
        return f(c.u);
    }
    template<typename F> auto withView(const Val& w, F f){
        VCell& c = *views[w.i()];
        if (c.t == "int") return f(*c.i);
        if (c.t == "flt") return f(*c.f);
        if (c.t == "dbl") return f(*c.d);
        if (c.t == "u8")  return f(*c.u);
        harnessError("view not set");
    }
};

inline dim3 D3(const Val& v){return dim3(v[0].i(), v[1].i(), v[2].i());}

template<typename T>
std::vector<T> vec(const Ctx& c, const Val& v){
    std::vector<T> out;
    for (auto& x : v.arr) out.push_back(c.num<T>(x));
    return out;
}

// --- views along a path ---
template<typename T> SubMatrixView<T> stepView(const SubMatrixView<T>& V, const Val& p){
    if (p["n"].s() == "sub")    return SubMatrixView<T>(V, D3(p["s"]), D3(p["d"]));
    if (p["n"].s() == "slices") return V.slices(p["i"].i(), p["c"].i());
    return V.slice(p["i"].i());
}
template<typename T> SubMatrixView<T> walkFrom(const SubMatrixView<T>& V, const Val& path, size_t i){
    if (i == path.size()) return V;
    return walkFrom(stepView(V, path[i]), path, i + 1);
}
template<typename T> SubMatrixView<T> walk(SimpleMatrix<T>& M, const Val& path){
    const Val& p = path[0];
    if (p["n"].s() == "sub")         return walkFrom(M.subMatView(D3(p["s"]), D3(p["d"])), path, 1);
    else if (p["n"].s() == "slices") return walkFrom(M.slices(p["i"].i(), p["c"].i()), path, 1);
    else                             return walkFrom(M.slice(p["i"].i()), path, 1);
}
template<typename T> SubMatrixView<const T> walk(const SimpleMatrix<T>& M, const Val& path){
    const Val& p = path[0];
    if (p["n"].s() == "sub")         return walkFrom(M.subMatView(D3(p["s"]), D3(p["d"])), path, 1);
    else if (p["n"].s() == "slices") return walkFrom(M.slices(p["i"].i(), p["c"].i()), path, 1);
    else                             return walkFrom(M.slice(p["i"].i()), path, 1);
}

// --- logging ---
inline std::string jd(const dim3& d){
    return "[" + std::to_string(d.x) + "," + std::to_string(d.y) + "," + std::to_string(d.z) + "]";
}
template<typename T> std::string jmat(const SimpleMatrix<T>& M, double S){
    Out o;
    for (size_t k = 0; k < M.size(); k++) o.num(exactNum(M[k], S));
    return "{\"d\":" + jd(M.dim()) + ",\"v\":" + o.done() + "}";
}
inline std::string jstore(Ctx& c){
    Out o;
    for (auto& p : c.cells){
        if (p->t == "int") o.raw(jmat(p->i, c.S));
        else if (p->t == "flt") o.raw(jmat(p->f, c.S));
        else if (p->t == "dbl") o.raw(jmat(p->d, c.S));
        else o.raw(jmat(p->u, c.S));
    }
    return o.done();
}

// All values of a matrix-like object, read in one of several ways
template<typename MT> std::string readAll(const MT& M, const std::string& how, double S){
    Out o;
    if (how == "iter"){
        for (auto it = M.begin(); it != M.end(); ++it) o.num(exactNum(*it, S));
    }else if (how == "range"){
        for (auto x : M) o.num(exactNum(x, S));
    }else if (how == "mat"){
        SimpleMatrix<std::remove_const_t<typename MT::type>> R(M);
        for (size_t k = 0; k < R.size(); k++) o.num(exactNum(R[k], S));
    }else{
        for (int z = 0; z < M.dim().z; z++)
            for (int y = 0; y < M.dim().y; y++)
                for (int x = 0; x < M.dim().x; x++)
                    o.num(exactNum(how == "xyz" ? M(x, y, z) : M(dim3(x, y, z)), S));
    }
    return o.done();
}
// The same as eight significant digits and a power of ten (whole numbers: as they are)
template<typename MT> std::string readSci(const MT& M, const std::string& how){
    Out o;
    auto one = [&](auto v){
        if constexpr (std::is_integral_v<decltype(v)>) return o.raw("[" + std::to_string(v) + ",0]");
        else{
            char s[64];
            int e = 0;
            snprintf(s, sizeof s, "%.7e", (double)v);
            if (sscanf(s + (s[0] == '-') + 9, "e%d", &e) != 1) return o.raw("[-1000000000,0]");        // no number
            std::string digits = std::string(1, s[s[0] == '-']) + std::string(s + (s[0] == '-') + 2, 7);
            return o.raw("[" + std::string(s[0] == '-' ? "-" : "") + std::to_string(std::stol(digits)) + "," + std::to_string(e) + "]");
        }
    };
    if (how == "iter") for (auto it = M.begin(); it != M.end(); ++it) one(*it);
    else if (how == "mat"){
        SimpleMatrix<std::remove_const_t<typename MT::type>> R(M);
        for (size_t k = 0; k < R.size(); k++) one(R[k]);
    }else
        for (int z = 0; z < M.dim().z; z++)
            for (int y = 0; y < M.dim().y; y++)
                for (int x = 0; x < M.dim().x; x++) if (how == "xyz") one(M(x, y, z)); else one(M(dim3(x, y, z)));
    return o.done();
}
// Index, value, distance from the start and total number of steps at each step of an iteration
template<typename T> std::string sides(const SimpleMatrix<T>& M){       // each side by its number
    if (M.dims() != M.dim()) harnessError("dims() and dim() differ");
    return jd(dim3(M.dim(0), M.dim(1), M.dim(2)));
}
template<typename MT> std::string sides(const MT& M){return jd(M.dim());}

template<typename MT> std::string shapeAll(const MT& M){
    Out o;
    o.raw(jd(M.dim()));
    o.raw(sides(M));
    o.num(M.size());
    o.num(M.isSquare());
    o.num(M.isFlat());
    o.num(M.isRow());
    o.num(M.isColumn());
    return o.done();
}

template<typename MT> std::string iterAll(MT&& M, bool post, double S){
    Out o;
    auto first = M.begin();
    size_t guard = 0;
    for (auto it = M.begin(); it != M.end();){
        auto log = [&](auto&& at){
            Out e;
            e.num(at.idx().x); e.num(at.idx().y); e.num(at.idx().z);
            e.num(exactNum(*at, S));
            e.num(at - first);
            e.num(M.end() - M.begin());
            o.raw(e.done());
        };
        if (post) log(it++);            // the element before the step
        else{
            auto at = it;
            auto&& next = ++it;
            if (next != it) harnessError("increment does not return the iterator");
            log(at);
        }
        if (++guard > 1000000) break;
    }
    return o.done();
}

// --- printing ---
inline void setFormat(std::ostream& os, const std::string& f){
    if (f == "fixed") os << std::fixed << std::setprecision(5);
    else if (f == "sci") os << std::scientific << std::setprecision(3);
    else os << std::defaultfloat << std::setprecision(6);
}
// The printed lines, and whether the number formats of the stream and of std::cout are what they were
template<typename MT> std::string printAll(const MT& M, const std::string& to, const std::string& fmt){
    std::ostringstream text;
    std::ostringstream aside;
    auto old = std::cout.rdbuf(to == "cout" ? text.rdbuf() : aside.rdbuf());
    std::ostream& os = to == "cout" ? std::cout : text;
    setFormat(std::cout, to == "cout" ? fmt : "default");
    setFormat(os, fmt);
    auto f1 = os.flags(), g1 = std::cout.flags();
    auto p1 = os.precision(), q1 = std::cout.precision();
    os << M;
    bool same = f1 == os.flags() && p1 == os.precision() && g1 == std::cout.flags() && q1 == std::cout.precision() && aside.str().empty();
    setFormat(std::cout, "default");
    std::cout.rdbuf(old);
    Out lines;
    std::istringstream is(text.str());
    for (std::string l; std::getline(is, l);) lines.raw(vj::quote(l));
    return "[" + lines.done() + "," + (same ? "1" : "0") + "]";
}
// A matrix with the same elements in another whole number type
template<typename As, typename MT> std::string printAs(const MT& M, const std::string& to, const std::string& fmt){
    my_cnn::SimpleMatrix<As> R(M.dim());
    for (int k = 0; k < M.dim().z; k++)
        for (int j = 0; j < M.dim().y; j++)
            for (int i = 0; i < M.dim().x; i++) R(dim3(i, j, k)) = static_cast<As>(M(dim3(i, j, k)));
    return printAll(R, to, fmt);
}
template<typename MT> std::string printAny(const MT& M, const std::string& to, const std::string& fmt, const std::string& as){
    if (as == "u32") return printAs<unsigned>(M, to, fmt);
    if (as == "u64") return printAs<unsigned long>(M, to, fmt);
    if (as == "i64") return printAs<long long>(M, to, fmt);
    if (as == "i16") return printAs<short>(M, to, fmt);
    if (as == "u16") return printAs<unsigned short>(M, to, fmt);
    if (as == "i8") return printAs<signed char>(M, to, fmt);
    return printAll(M, to, fmt);
}
// The colour codes of each line that printImage writes to the terminal
template<typename MT> std::string imageAll(const MT& M){
    FILE* tmp = tmpfile();
    if (!tmp) harnessError("tmpfile");
    std::cout.flush(); fflush(stdout);
    int keep = dup(1);
    dup2(fileno(tmp), 1);
    my_cnn::printImage(M);
    std::cout.flush(); fflush(stdout);
    dup2(keep, 1); close(keep);
    rewind(tmp);
    std::string text;
    for (int ch; (ch = fgetc(tmp)) != EOF;) text += char(ch);
    fclose(tmp);
    Out rows;
    std::istringstream is(text);
    for (std::string l; std::getline(is, l);){
        Out row;
        for (size_t at = 0; (at = l.find("48;2;", at)) != std::string::npos; at += 5){
            int a = -1, b = -1, c = -1;
            if (sscanf(l.c_str() + at + 5, "%d;%d;%dm", &a, &b, &c) != 3) a = b = c = -1;
            row.raw("[" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "]");
        }
        rows.raw(row.done());
    }
    return rows.done();
}

// Outcome of an operation
inline std::string guarded(Ctx& c, const Val& e, const std::function<std::string()>& f){
    std::string out = "ok", res = "[]";
    try{
        res = f();
        if (res.empty()) res = "[]";
    }
    catch (MatrixSizeException&){out = "size"; res = "[]";}
    catch (MatrixTransformException&){out = "transform"; res = "[]";}
    catch (std::out_of_range&){out = "range"; res = "[]";}
    catch (std::exception& x){out = std::string("other ") + x.what(); res = "[]";}
    std::string r = "\"out\":" + vj::quote(out) + ",\"res\":" + res;
    if (!e.has("q")) r += ",\"st\":" + jstore(c);
    return r;
}

using GenFn = std::string(*)(Ctx&, const Val&);
std::map<int, GenFn>& genTable();
struct Registrar {Registrar(int id, GenFn f){genTable()[id] = f;}};
