// Minimal stand-in for the part of ScalFMM's interface that FeeLLGood uses.  ScalFMM is not
// installed in the sandbox, so without it a third of the sources (main, save, energy,
// recentering, time_integration) could not even be parsed.  Direct O(N^2) summation.
#ifndef SCALFMM_STUB_HPP
#define SCALFMM_STUB_HPP
#include <cmath>
#include <omp.h>
#include <vector>
typedef long long FSize;
enum class FParticleType { FParticleTypeSource, FParticleTypeTarget };
template<class FReal> struct FPoint {
    FReal x, y, z;
    FPoint(FReal a, FReal b, FReal c) : x(a), y(b), z(c) {}
};
template<class FReal> class FP2PParticleContainerIndexed {
public:
    FSize getNbParticles() const { return (FSize) idx.size(); }
    const std::vector<FSize> &getIndexes() const { return idx; }
    FReal *getPhysicalValues() { return q.data(); }
    FReal *getPotentials() { return pot.data(); }
    void push(const FPoint<FReal> &p, FSize i, FReal v) { pos.push_back(p); idx.push_back(i); q.push_back(v); pot.push_back(0); }
    std::vector<FPoint<FReal>> pos;
private:
    std::vector<FSize> idx;
    std::vector<FReal> q, pot;
};
template<class FReal, class Container> class FTypedLeaf {
public:
    Container *getSrc() { return &src; }
    Container *getTargets() { return &tgt; }
private:
    Container src, tgt;
};
template<class FReal, int P> class FTypedRotationCell {
public:
    void resetToInitialState() {}
};
template<class FReal, class Cell, class Container, class Leaf> class FOctree {
public:
    FOctree(const int, const int, const FReal, const FPoint<FReal> &) {}
    void insert(const FPoint<FReal> &p, FParticleType t, FSize i, FReal v = 0) {
        if (t == FParticleType::FParticleTypeSource) leaf.getSrc()->push(p, i, v);
        else leaf.getTargets()->push(p, i, v);
    }
    template<class F> void forEachLeaf(F f) { f(&leaf); }
    template<class F> void forEachCell(F f) { f(&cell); }
    Leaf leaf;
    Cell cell;
};
template<class FReal, class Cell, class Container, int P> class FRotationKernel {
public:
    FRotationKernel(const int, const FReal, const FPoint<FReal> &) {}
};
template<class Octree, class Cell, class Container, class Kernel, class Leaf> class FFmmAlgorithmThreadTsm {
public:
    FFmmAlgorithmThreadTsm(Octree *t, Kernel *) : tree(t) {}
    void execute() {
        Container *s = tree->leaf.getSrc();
        Container *t = tree->leaf.getTargets();
        for (FSize i = 0; i < t->getNbParticles(); i++)
            for (FSize j = 0; j < s->getNbParticles(); j++) {
                double dx = t->pos[i].x - s->pos[j].x, dy = t->pos[i].y - s->pos[j].y, dz = t->pos[i].z - s->pos[j].z;
                double r = std::sqrt(dx * dx + dy * dy + dz * dz);
                if (r > 0) t->getPotentials()[i] += s->getPhysicalValues()[j] / r;
            }
    }
private:
    Octree *tree;
};
#endif
