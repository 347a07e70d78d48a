// Driver of shapes and indices: the operations of spec/Dims.tla on the real code.
#include "common.h"
#include <algorithm>
#include <memory>
#include <new>
#include "cnn_from_scratch/Matrix/dim.h"
using namespace my_cnn;

struct Any {virtual ~Any(){} virtual std::string handle(const vj::Val& e) = 0;};

template<int N> struct Regs : public Any {
    using D = Dim<N>;
    // Objects live where something else has been before
    struct Cell {
        alignas(D) unsigned char raw[sizeof(D)];
        D* p = nullptr;
        template<typename F> void renew(F f, int dirt){
            if (p) p->~D();
            std::memset(raw, dirt, sizeof raw);
            p = f(raw);
        }
    };
    std::vector<Cell> cells;
    int dirt;
    std::unique_ptr<DimIterator<N>> its[2];
    Regs(int many, int dirt) : cells(many), dirt(dirt) {
        for (auto& c : cells) c.renew([](void* at){return new(at) D();}, dirt);
        for (auto& i : its) i = std::make_unique<DimIterator<N>>(D(), D());
    }
    static std::string text(const D& d){Out o; for (int i = 0; i < N; i++) o.num(d.data[i]); return o.done();}
    D& at(const vj::Val& v){return *cells.at(v.i() - 1).p;}
    template<typename F> void put(const vj::Val& k, F f){cells.at(k.i() - 1).renew(f, dirt);}

    void make(const vj::Val& k, const std::vector<int>& v){
        put(k, [&](void* at) -> D* {
            if (v.size() == 0) return new(at) D();
            if constexpr (N >= 2) if (v.size() == 2) return new(at) D(v[0], v[1]);
            if constexpr (N >= 3) if (v.size() == 3) return new(at) D(v[0], v[1], v[2]);
            if constexpr (N >= 4) if (v.size() == 4) return new(at) D(v[0], (long)v[1], v[2], (short)v[3]);
            throw vj::HarnessMistake{"numbers"};
        });
    }
    std::string act(const vj::Val& e){
        const std::string& op = e["op"].s();
        Out o;
        if (op == "make"){std::vector<int> v; for (auto& x : e["v"].arr) v.push_back(x.i()); make(e["k"], v);}
        else if (op == "fill"){const int x = e["x"].i(); put(e["k"], [&](void* at){return new(at) D(x);});}
        else if (op == "copy"){D old = at(e["j"]); put(e["k"], [&](void* at){return new(at) D(old);});}
        else if (op == "assign") at(e["k"]) = static_cast<const D&>(at(e["j"]));
        else if (op == "move"){D& from = at(e["j"]); put(e["k"], [&](void* at){return new(at) D(std::move(from));});}
        else if (op == "massign") at(e["k"]) = std::move(at(e["j"]));
        else if (op == "put"){
            const int a = e["a"].i(), x = e["x"].i();
            D& d = at(e["k"]);
            if (e["by"].s() == "name" && a <= 3) (a == 1 ? d.x : a == 2 ? d.y : d.z) = x; else d.data[a - 1] = x;
        }
        else if (op == "add"){D r = at(e["i"]) + at(e["j"]); put(e["k"], [&](void* at){return new(at) D(r);});}
        else if (op == "sub"){D r = at(e["i"]) - at(e["j"]); put(e["k"], [&](void* at){return new(at) D(r);});}
        else if (op == "eq"){o.num(at(e["i"]) == at(e["j"])); o.num(at(e["i"]) != at(e["j"]));}
        else if (op == "size") o.num(at(e["i"]).size());
        else if (op == "flat") o.num(at(e["i"]).getFlatIdx(at(e["j"])));
        else if (op == "bsize" || op == "bflat"){
            size_t v = op == "bsize" ? at(e["i"]).size() : at(e["i"]).getFlatIdx(at(e["j"]));
            for (int k = 0; k < 6; k++, v >>= 12) o.num(v & 4095);
        }
        else if (op == "show"){std::ostringstream s; s << at(e["i"]); o.str(s.str());}
        else if (op == "iter") its[e["w"].i() - 1] = std::make_unique<DimIterator<N>>(D(at(e["i"])), D(at(e["j"])));
        else if (op == "step"){
            auto& it = *its[e["w"].i() - 1];
            return text(e["post"].i() ? (it++).idx : (++it).idx);
        }
        else if (op == "same") o.num(*its[0] == *its[1]);
        else if (op == "walk"){
            DimIterator<N> it(D(at(e["i"])), D());
            const size_t n = at(e["i"]).size();
            for (size_t i = 0; i <= n && i < 5000; i++){o.raw(text(it.idx)); if (i % 2) ++it; else it++;}
        }
        else throw vj::HarnessMistake{"unknown operation " + op};
        return o.done();
    }
    std::string regs(){Out o; for (auto& c : cells) o.raw(text(*c.p)); return o.done();}
    std::string handle(const vj::Val& e) override {
        std::string r = act(e);
        return "\"out\":\"ok\",\"res\":" + r + ",\"regs\":" + regs();
    }
};

int main(int argc, char** argv){
    return runDriver(argc, argv, []{
        auto c = std::make_shared<std::unique_ptr<Any>>();
        return Handler([c](const vj::Val& e) -> std::string {
            if (e["op"].s() != "reset") return (*c)->handle(e);
            const int n = e["n"].i(), m = e["many"].i(), d = e["dirt"].i();
            if (n == 1) *c = std::make_unique<Regs<1>>(m, d);
            else if (n == 2) *c = std::make_unique<Regs<2>>(m, d);
            else if (n == 3) *c = std::make_unique<Regs<3>>(m, d);
            else *c = std::make_unique<Regs<4>>(m, d);
            Out o;
            for (int i = 0; i < m; i++){Out z; for (int k = 0; k < n; k++) z.num(0); o.raw(z.done());}
            return "\"out\":\"ok\",\"res\":[],\"regs\":" + o.done();
        });
    });
}
