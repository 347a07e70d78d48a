// Interpreter for matrix programs (see spec/MatrixStore.tla for the meaning of each operation).
#include "mat.h"

std::map<int, GenFn>& genTable(){static std::map<int, GenFn> t; return t;}

static std::string doOp(Ctx& c, const Val& e){
    const std::string& op = e["op"].s();
    if (op == "reset"){
        c.cells.clear(); c.views.clear();
        c.S = e.has("E") ? std::ldexp(e["S"].d(), -e["E"].i()) : e["S"].d();   // all numbers times 2^E
        for (auto& t : e["types"].arr){
            c.cells.push_back(std::make_unique<Cell>());
            c.cells.back()->t = t.s();
        }
        for (int i = 0; i < e["nv"].i(); i++) c.views.push_back(std::make_unique<VCell>());
        return "";
    }
    if (e.has("fn")){
        auto it = genTable().find(e["fn"].i());
        if (it == genTable().end()) harnessError("no generated function");
        return it->second(c, e);
    }
    if (op == "ctor") return c.withMat(e["k"], [&](auto& M){
        using T = typename std::remove_reference_t<decltype(M)>::type;
        M = SimpleMatrix<T>(D3(e["d"]), c.num<T>(e["x"])); return std::string();});
    if (op == "ctorv") return c.withMat(e["k"], [&](auto& M){
        using T = typename std::remove_reference_t<decltype(M)>::type;
        SimpleMatrix<T> N(D3(e["d"]), vec<T>(c, e["v"]));
        M = std::move(N); return std::string();});
    if (op == "setent") return c.withMat(e["k"], [&](auto& M){
        using T = typename std::remove_reference_t<decltype(M)>::type;
        M.setEntries(vec<T>(c, e["v"])); return std::string();});
    if (op == "vec") return c.withMat(e["k"], [&](auto& M){
        using T = typename std::remove_reference_t<decltype(M)>::type;
        M = vec<T>(c, e["v"]); return std::string();});
    if (op == "move") return c.withMat(e["k"], [&](auto& M){
        using T = typename std::remove_reference_t<decltype(M)>::type;
        auto& N = c.mat<T>(e["j"]);
        if (e["how"].s() == "ctor"){SimpleMatrix<T> X(std::move(N)); M = X;}
        else M = std::move(N);
        return std::string();});
    if (op == "swap") return c.withMat(e["k"], [&](auto& M){
        using T = typename std::remove_reference_t<decltype(M)>::type;
        std::swap(M, c.mat<T>(e["j"])); return std::string();});
    if (op == "resize") return c.withMat(e["k"], [&](auto& M){
        if (e["how"].i()) M.resize(D3(e["d"])); else M.resize(e["d"][0].i(), e["d"][1].i(), e["d"][2].i());
        return std::string();});
    if (op == "reshape") return c.withMat(e["k"], [&](auto& M){
        if (e["how"].i()) M.reshape(D3(e["d"])); else M.reshape(e["d"][0].i(), e["d"][1].i(), e["d"][2].i());
        return std::string();});
    if (op == "put") return c.withMat(e["k"], [&](auto& M){
        using T = typename std::remove_reference_t<decltype(M)>::type;
        dim3 i = D3(e["i"]); T x = c.num<T>(e["x"]); const std::string& how = e["how"].s();
        if (how == "xyz") M(i.x, i.y, i.z) = x;
        else if (how == "tri") M(i) = x;
        else if (how == "flat") M[M.getIndex(i.x, i.y, i.z)] = x;
        else if (how == "flat3") M[M.getIndex(i)] = x;
        else if (how == "dimflat") M[M.dim().getFlatIdx(i)] = x;
        else{
            for (auto it = M.begin(); it != M.end(); it++)
                if (it.idx() == i){*it = x; break;}
        }
        return std::string();});
    if (op == "read") return c.withMat(e["k"], [&](auto& M){
        const std::string& how = e["how"].s();
        if (how == "flat"){
            Out o;
            for (size_t k = 0; k < M.size(); k++) o.num(exactNum(std::as_const(M)[k], c.S));
            return o.done();
        }
        if (how == "xyzm" || how == "trim"){           // non-const access
            Out o;
            for (int z = 0; z < M.dim().z; z++)
                for (int y = 0; y < (int)M.dim(1); y++)
                    for (int x = 0; x < M.dims().x; x++)
                        o.num(exactNum(how == "xyzm" ? M(x, y, z) : M(dim3(x, y, z)), c.S));
            return o.done();
        }
        if (how == "iterm"){
            Out o;
            for (auto it = M.begin(); it != M.end(); it++) o.num(exactNum(*it, c.S));
            return o.done();
        }
        if (how == "z0"){                              // default layer argument
            Out o;
            for (int y = 0; y < M.dim().y; y++) for (int x = 0; x < M.dim().x; x++) o.num(exactNum(M(x, y), c.S));
            return o.done();
        }
        return readAll(std::as_const(M), how, c.S);});
    if (op == "readat") return c.withMat(e["k"], [&](auto& M){
        Out o; o.num(exactNum(M(D3(e["i"])), c.S)); return o.done();});
    if (op == "idxmap") return c.withMat(e["k"], [&](auto& M){
        Out o; const std::string& how = e["how"].s();
        for (int z = 0; z < M.dim().z; z++)
            for (int y = 0; y < M.dim().y; y++)
                for (int x = 0; x < M.dim().x; x++)
                    o.num(how == "xyz" ? M.getIndex(x, y, z) : how == "tri" ? M.getIndex(dim3(x, y, z)) : M.dim().getFlatIdx(dim3(x, y, z)));
        return o.done();});
    if (op == "view") return c.withMat(e["k"], [&](auto& M){
        using T = typename std::remove_reference_t<decltype(M)>::type;
        auto V = std::make_unique<SubMatrixView<T>>(walk(M, e["p"]));
        VCell& v = *c.views[e["w"].i()];
        v.t = tname<T>(); pickv<T>(v) = std::move(V);
        return std::string();});
    if (op == "subview") return c.withView(e["w0"], [&](auto& V0){
        using T = typename std::remove_reference_t<decltype(V0)>::type;
        auto V = std::make_unique<SubMatrixView<T>>(walkFrom(V0, e["p"], 0));
        VCell& v = *c.views[e["w"].i()];
        v.t = tname<T>(); pickv<T>(v) = std::move(V);
        return std::string();});
    if (op == "vat") return c.withView(e["w"], [&](auto& V){
        Out o; dim3 i = D3(e["i"]); const std::string& how = e["how"].s();
        if (how == "at") o.num(exactNum(V.at(i), c.S));
        else if (how == "cat") o.num(exactNum(std::as_const(V).at(i), c.S));
        else if (how == "xyz") o.num(exactNum(V(i.x, i.y, i.z), c.S));
        else if (how == "cxyz") o.num(exactNum(std::as_const(V)(i.x, i.y, i.z), c.S));
        else if (how == "ctri") o.num(exactNum(std::as_const(V)(i), c.S));
        else o.num(exactNum(V(i), c.S));
        return o.done();});
    if (op == "vput") return c.withView(e["w"], [&](auto& V){
        using T = typename std::remove_reference_t<decltype(V)>::type;
        dim3 i = D3(e["i"]); T x = c.num<T>(e["x"]); const std::string& how = e["how"].s();
        if (how == "at") V.at(i) = x;
        else if (how == "xyz") V(i.x, i.y, i.z) = x;
        else if (how == "iter"){for (auto it = V.begin(); it != V.end(); ++it) if (it.idx() == i){*it = x; break;}}
        else V(i) = x;
        return std::string();});
    if (op == "vfill") return c.withView(e["w"], [&](auto& V){
        using T = typename std::remove_reference_t<decltype(V)>::type;
        if (e["st"].s() == "int") V = c.num<int>(e["x"]);
        else if (e["st"].s() == "dbl") V = c.num<double>(e["x"]);
        else V = c.num<T>(e["x"]);
        return std::string();});
    harnessError("unknown operation " + op);
}

int main(int argc, char** argv){
    return runDriver(argc, argv, []() -> Handler {
        auto c = std::make_shared<Ctx>();
        return [c](const Val& e){return guarded(*c, e, [&]{return doOp(*c, e);});};
    });
}
