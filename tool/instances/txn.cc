#include <ostream>
#include "eckit/container/CacheManager.h"
#include "eckit/container/MappedArray.h"
#include "eckit/container/SharedMemArray.h"
#include "eckit/runtime/Monitor.h"
#include "eckit/log/Log.h"
#include "eckit/log/JSON.h"
#include "eckit/transaction/TxnLog.h"
#include "eckit/transaction/TxnEvent.h"
#include "eckit/serialisation/Reanimator.h"

namespace efacts_instances {

class Event : public eckit::TxnEvent {
public:
    Event() {}
    Event(eckit::Stream& s) : eckit::TxnEvent(s) {}
    static const eckit::ClassSpec& classSpec() {
        static eckit::ClassSpec s = {&eckit::TxnEvent::classSpec(), "Event"};
        return s;
    }
    const eckit::ReanimatorBase& reanimator() const override;
    friend std::ostream& operator<<(std::ostream& s, const Event&) { return s; }
};

struct CacheTraits {
    using value_type = int;
    using Locker     = eckit::CacheManagerFileSemaphoreLock;
    static const char* name() { return "x"; }
    static int version() { return 1; }
    static const char* extension() { return ".x"; }
    static void save(const eckit::CacheManagerBase&, const value_type&, const eckit::PathName&) {}
    static void load(const eckit::CacheManagerBase&, value_type&, const eckit::PathName&) {}
};

}  // namespace efacts_instances

template class eckit::TxnLog<efacts_instances::Event>;
template class eckit::RecoverThread<efacts_instances::Event>;
template class eckit::CacheManager<efacts_instances::CacheTraits>;
template class eckit::MappedArray<int>;
template class eckit::SharedMemArray<int>;
template class eckit::Reanimator<efacts_instances::Event>;
