// Driver of layers and models: the operations of spec/Network.tla on the real code.
#pragma once
#include "common.h"
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include "cnn_from_scratch/ModelDescription.h"

using namespace my_cnn;
using DMat  = SimpleMatrix<double>;
using Model = ModelDescription<float, std::string>;

// Numbers of a case lie on the grid 1/S; what is closer to it than rounding errors get is on it
struct Scale {double S = 1; bool round = false;
    int operator()(double x) const {
        const double y = x*S, n = std::round(y);
        return round || std::fabs(y - n) < 1e-7 ? roundNum(x, S) : BAD;
    }};

// ---------------------------------------------------------------- matrices
inline dim3 toDim(const vj::Val& v){return dim3(v[0].i(), v[1].i(), v[2].i());}

// Elements are listed in storage order; written by coordinates so that the driver does not
// depend on how the matrix stores them
template<typename T = double>
SimpleMatrix<T> toMat(const vj::Val& m, double S){
    const dim3 d = toDim(m["d"]);
    SimpleMatrix<T> out(d);
    size_t k = 0;
    for (int z = 0; z < d.z; z++) for (int y = 0; y < d.y; y++) for (int x = 0; x < d.x; x++)
        out(x, y, z) = static_cast<T>(m["v"][k++].d()/S);
    return out;
}
template<typename M, typename F>
std::string valuesOf(const M& m, F num){
    Out v;
    const dim3 d = m.dim();
    for (int z = 0; z < d.z; z++) for (int y = 0; y < d.y; y++) for (int x = 0; x < d.x; x++)
        v.num(num(m(x, y, z)));
    return v.done();
}
inline std::string dimText(const dim3& d){
    return "[" + std::to_string(d.x) + "," + std::to_string(d.y) + "," + std::to_string(d.z) + "]";
}
template<typename M, typename F>
std::string pairOf(const M& m, F num){return "[" + dimText(m.dim()) + "," + valuesOf(m, num) + "]";}
template<typename M, typename F>
std::string recOf(const M& m, F num){return "{\"d\":" + dimText(m.dim()) + ",\"v\":" + valuesOf(m, num) + "}";}

// ---------------------------------------------------------------- test doubles
// Holds threads at chosen points and lets them go on one at a time, in an order given by the
// program. It only steers: whatever happens is recorded and judged as it happened.
// A plan names the points in the order in which they are to be passed ("fi3": data point 3 enters
// the model, "fo3", "bo3", "bi3"); an order says which of the waiting threads goes on. Where a
// plan cannot be followed, the next thread goes on.
class Gate {
    std::mutex m; std::condition_variable cv;
    struct Waiter {std::string at; bool go = false;};
    std::vector<Waiter*> waiting;
    unsigned long arrivals = 0;
    bool on = false;
    std::thread controller;
    void letGo(size_t k){
        waiting[k]->go = true;
        waiting.erase(waiting.begin() + k);
        cv.notify_all();
    }
public:
    int followed = 0, left = 0;
    bool planned = false;
    void start(std::vector<int> order, std::vector<std::string> plan){
        if (order.empty() && plan.empty()) return;
        on = true;
        planned = !plan.empty();
        controller = std::thread([this, order, plan]{
            size_t i = 0, j = 0;
            std::unique_lock<std::mutex> l(m);
            while (on){
                if (waiting.empty()){cv.wait_for(l, std::chrono::milliseconds(5)); continue;}
                if (j < plan.size()){
                    bool done = false;
                    for (int patience = 0; !done && patience < 400 && on; patience++){
                        for (size_t k = 0; !done && k < waiting.size(); k++) if (waiting[k]->at == plan[j]){
                            letGo(k);
                            done = true;
                        }
                        if (done) break;
                        l.unlock();
                        std::this_thread::sleep_for(std::chrono::microseconds(50));
                        l.lock();
                    }
                    j++;
                    if (done){followed++; continue;}
                    if (waiting.empty()) continue;
                    left++;
                    letGo(0);
                    continue;
                }
                // until nothing new arrives
                unsigned long seen;
                do {
                    seen = arrivals;
                    l.unlock();
                    std::this_thread::sleep_for(std::chrono::microseconds(120));
                    l.lock();
                } while (seen != arrivals);
                if (waiting.empty()) continue;
                letGo((order.empty() ? 0 : order[i++ % order.size()]) % waiting.size());
            }
            while (!waiting.empty()) letGo(0);
        });
    }
    void stop(){
        if (!controller.joinable()) return;
        {std::lock_guard<std::mutex> l(m); on = false;}
        cv.notify_all();
        controller.join();
    }
    void pass(const std::string& at = ""){
        if (!controller.joinable() || (planned && at.empty())) return;
        std::unique_lock<std::mutex> l(m);
        if (!on) return;
        Waiter w;
        w.at = at;
        waiting.push_back(&w);
        arrivals++;
        cv.notify_all();
        cv.wait(l, [&]{return w.go;});
    }
};

// What is shared by the test doubles of one training run
struct Watch {
    Gate gate;
    bool logging = false;
    std::mutex m;
    std::vector<std::string> events;
    std::vector<LabeledInput<float>> points;
    std::set<size_t> throwing;
    void log(const std::string& e){
        if (!logging) return;
        std::lock_guard<std::mutex> l(m);
        events.push_back("{" + e + "}");
    }
    // Number (from 1) of the point with these values, 0 if there is none
    template<typename M> int which(const M& x){
        for (size_t k = 0; k < points.size(); k++){
            const auto& p = points[k].data;
            if (p.size() != x.size()) continue;
            bool same = true;
            for (size_t i = 0; same && i < p.size(); i++) same = (double)p[i] == (double)x[i];
            if (same) return k + 1;
        }
        return 0;
    }
    // the point last seen entering each slot; only steers
    std::array<std::atomic<int>, 64> cur{};
    void hold(const char* what, size_t slot){
        if (!gate.planned) return gate.pass();
        const int p = cur[slot % 64].load(std::memory_order_relaxed);
        if (p) gate.pass(what + std::to_string(p));
    }
    template<typename M> void enter(size_t slot, const M& x){
        if (gate.planned) cur[slot % 64].store(which(x), std::memory_order_relaxed);
        hold("fi", slot);
    }
    template<typename M> void pass(const char* what, size_t slot, const M& x, const std::string& more = ""){
        if (logging) log("\"ev\":\"" + std::string(what) + "\",\"s\":" + std::to_string((int)slot) + ",\"p\":" + std::to_string(which(x)) + more);
    }
};

// Softmax behind a step that turns the largest logit into certainty
class SnapSoftmax : public Softmax {
public:
    double S; std::function<void()> on_apply; std::shared_ptr<Watch> watch;
    SnapSoftmax(size_t n, double S) : Softmax(n), S(S) {}
    DMat propagateForward(DMat&& in, size_t slot) override {
        if (watch){watch->hold("fo", slot); watch->pass("fo", slot, in);}
        int best = 0, n = in.size();
        long bv = 0;
        for (int i = 0; i < n; i++){
            long v = std::llround(in(in.dim().x == 1 ? 0 : i, in.dim().x == 1 ? i : 0, 0)*S);
            if (i == 0 || v > bv){bv = v; best = i;}
        }
        DMat z(in.dim());
        if (in.dim().x == 1) z(0, best, 0) = 1000; else z(best, 0, 0) = 1000;
        return Softmax::propagateForward(std::move(z), slot);
    }
    DMat propagateBackward(const DMat& x, const DMat& y, const DMat& g, size_t slot, bool last) override {
        if (watch) watch->hold("bo", slot);
        DMat r = Softmax::propagateBackward(x, y, g, slot, last);
        if (watch && watch->logging){
            int lab = -1;
            for (int i = 0; i < (int)r.size(); i++) if (y[i] - r[i] > 0.5) lab = i;
            watch->pass("bo", slot, x, ",\"t\":" + std::to_string(lab));
        }
        return r;
    }
    void applyBatch(double r) override {if (on_apply) on_apply();}
};

// A layer that hands everything on
class Probe : public Activation {
public:
    std::shared_ptr<Watch> watch; std::function<void()> on_apply;
    Probe() : Activation(LINEAR) {}
    void applyBatch(double) override {if (on_apply) on_apply();}
    DMat propagateForward(DMat&& in, size_t slot) override {
        if (watch){watch->enter(slot, in); watch->pass("fi", slot, in);}
        return Activation::propagateForward(std::move(in), slot);
    }
    DMat propagateBackward(const DMat& x, const DMat& y, const DMat& g, size_t slot, bool last) override {
        if (watch) watch->hold("bi", slot);
        DMat r = Activation::propagateBackward(x, y, g, slot, last);
        if (watch) watch->pass("bi", slot, x);
        return r;
    }
};

inline ModelActivationFunction actOf(const std::string& f){
    if (f == "RELU") return RELU;
    if (f == "SIGMOID") return SIGMOID;
    if (f == "LINEAR") return LINEAR;
    if (f == "TANGENT") return TANGENT;
    if (f == "LEAKY_RELU") return LEAKY_RELU;
    throw vj::HarnessMistake{"activation " + f};
}
inline PoolingType poolOf(const std::string& f){
    if (f == "max") return MAX;
    if (f == "min") return MIN;
    if (f == "avg") return AVG;
    throw vj::HarnessMistake{"pool " + f};
}
inline std::string typeName(ModelFlowMode t){
    switch (t){
        case KERNEL: return "KERNEL"; case POOLING: return "POOLING"; case FULLY_CONNECTED: return "FULLY_CONNECTED";
        case ACTIVATION: return "ACTIVATION"; case OUTPUT: return "OUTPUT"; default: return "UNSPECIFIED";
    }
}
inline std::shared_ptr<ModelLayer> makeLayer(const vj::Val& c, double S){
    const std::string& k = c["k"].s();
    if (k == "kernel") return std::make_shared<Kernel>(toDim(c["fd"]), (unsigned)c["n"].i(), (unsigned)c["s"].i());
    if (k == "pool") return std::make_shared<Pooling>(dim2(c["pd"][0].i(), c["pd"][1].i()), dim2(c["ps"][0].i(), c["ps"][1].i()), poolOf(c["f"].s()));
    if (k == "fc") return std::make_shared<ConnectedLayer>((unsigned)c["n"].i());
    if (k == "act") return std::make_shared<Activation>(actOf(c["f"].s()));
    if (k == "soft") return std::make_shared<Softmax>((size_t)c["n"].i());
    if (k == "snap") return std::make_shared<SnapSoftmax>((size_t)c["n"].i(), S);
    throw vj::HarnessMistake{"layer " + k};
}

// The text layout of a matrix
inline std::string matText(const DMat& m){
    std::string s = std::to_string(m.dim().x) + " " + std::to_string(m.dim().y) + " " + std::to_string(m.dim().z) + "\n";
    char buf[64];
    for (int z = 0; z < m.dim().z; z++){
        for (int x = 0; x < m.dim().x; x++){
            for (int y = 0; y < m.dim().y; y++){
                snprintf(buf, sizeof buf, "%16.6f ", m(x, y, z));
                s += buf;
            }
            s += "\n";
        }
        s += "\n";
    }
    return s;
}

// What the source throws for a point that it cannot deliver
struct SourceFailure : public std::exception {
    size_t point;
    SourceFailure(size_t p) : point(p) {}
    const char* what() const noexcept override {return "the point cannot be delivered";}
};

// The element type of the data points.  A model for another type shares the layers and labels of the model.
inline bool exactIn(const std::string& t, double v){
    if (t == "int") return v == (int)v;
    if (t == "uchar") return v == (unsigned char)v;
    return true;
}
template<typename T>
ModelDescription<T, std::string> typed(Model& M){
    ModelDescription<T, std::string> m;
    m.layers = M.layers;
    m.output_labels = M.output_labels;
    m.loss_function = M.loss_function;
    return m;
}
template<typename F>
auto withType(const std::string& t, F f){
    if (t == "dbl") return f(double());
    if (t == "int") return f(int());
    if (t == "uchar") return f((unsigned char)0);
    if (t == "flt") return f(float());
    throw vj::HarnessMistake{"element type " + t};
}

// A data source over a list of points
template<typename T>
struct ListSource : public DataGenerator<T> {
    std::shared_ptr<Watch> watch;
    size_t pos = 0;
    std::vector<std::vector<std::vector<int>>> epochs{{{}}};    // epoch, batch, points
    int resets = 0;
    std::atomic<int> inside{0}, overlaps{0};
    struct Call {
        ListSource& s; const char* what; std::string more;
        Call(ListSource& s, const char* what) : s(s), what(what) {
            if (s.inside.fetch_add(1, std::memory_order_relaxed)) s.overlaps.fetch_add(1, std::memory_order_relaxed);
            s.watch->log("\"ev\":\"call\"");
            s.watch->gate.pass();
        }
        ~Call(){
            s.watch->log("\"ev\":\"" + std::string(what) + "\"" + more);
            s.inside.fetch_sub(1, std::memory_order_relaxed);
        }
    };
    ListSource(std::shared_ptr<Watch> w) : watch(w) {}
    LabeledInput<T> getNextDataPoint() override {
        Call c(*this, "draw");
        if (pos >= watch->points.size()){
            c.more = ",\"p\":0";
            throw std::runtime_error("drawn from an exhausted source");
        }
        epochs.back().back().push_back(pos);
        c.more = ",\"p\":" + std::to_string(pos + 1);
        if (watch->throwing.count(pos)) throw SourceFailure{pos++};
        const auto& p = watch->points[pos++];
        LabeledInput<T> given;
        given.data  = SimpleMatrix<T>(p.data.dim());
        given.label = p.label;
        for (size_t i = 0; i < p.data.size(); i++) given.data[i] = (T)p.data[i];
        return given;
    }
    size_t size() override {Call c(*this, "size"); return watch->points.size();}
    bool hasAvailableData() override {
        Call c(*this, "avail");
        bool r = pos < watch->points.size();
        c.more = r ? ",\"a\":1" : ",\"a\":0";
        return r;
    }
    void reset() override {pos = 0; resets++; epochs.push_back({{}}); watch->log("\"ev\":\"reset\"");}
    void update(){epochs.back().push_back({}); watch->log("\"ev\":\"update\"");}
    std::string drawn() const {
        Out all;
        for (auto& ep : epochs){
            Out b;
            for (auto& v : ep){
                if (v.empty()) continue;
                Out o;
                for (int i : v) o.num(i);
                b.raw(o.done());
            }
            all.raw(b.done());
        }
        return all.done();
    }
};
