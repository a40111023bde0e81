// Explicit instantiations of the registries no compiled unit instantiates in full.
#include <ostream>
#include "eckit/container/ClassExtent.h"
#include "eckit/log/Log.h"
#include "eckit/memory/Factory.h"
namespace efacts_instances {
struct Thing {
    void act() {}
    void look() const {}
    void act1(int) {}
    void look1(int) const {}
    void act2(int, int) {}
    void ref1(int&) {}
    void cref1(int&) const {}
    void ref2(int&, int&) {}
};
struct Product {
    struct builder_t {
        long i = 0;
        friend std::ostream& operator<<(std::ostream& s, const builder_t& b) { return s << b.i; }
    };
    static std::string className() { return "Product"; }
};
}
using namespace efacts_instances;
template class eckit::ClassExtent<Thing>;
template class eckit::Factory<Product>;
void efacts_instances_calls() {
    using E = eckit::ClassExtent<Thing>;
    int i = 0;
    E::callAll<int>(&Thing::act1, 1);
    E::callAll<int>(&Thing::look1, 1);
    E::callAll<int, int>(&Thing::act2, 1, 2);
    E::callAll<int>(&Thing::ref1, i);
    E::callAll<int>(&Thing::cref1, i);
    E::callAll<int, int>(&Thing::ref2, i, i);
    std::cout << eckit::Factory<Product>::instance();
}
