// Explicit instantiations of concurrency templates of the library that no compiled unit instantiates in full.
#include <ostream>
#include "eckit/log/JSON.h"
#include "eckit/log/Log.h"
#include "eckit/runtime/Main.h"
#include "eckit/runtime/Dispatcher.h"
#include "eckit/runtime/ProducerConsumer.h"
#include "eckit/runtime/PipeHandler.h"
#include "eckit/container/Queue.h"
#include "eckit/container/ClassExtent.h"
#include "eckit/thread/AutoLock.h"
#include "eckit/thread/Mutex.h"
#include "eckit/thread/MutexCond.h"
#include "eckit/thread/Once.h"
#include "eckit/memory/Owned.h"
#include "eckit/memory/Factory.h"
#include "eckit/serialisation/Stream.h"

namespace efacts_instances {

struct Payload {
    int i = 0;
    Payload() = default;
    explicit Payload(int) {}
};

struct Request {
    void json(eckit::JSON&) const {}
    void reply() {}
    void send(eckit::Stream&) const {}
    void pick() {}
    void done() {}
    void error(const std::exception&) {}
    friend std::ostream& operator<<(std::ostream& s, const Request&) { return s; }
    friend eckit::Stream& operator<<(eckit::Stream& s, const Request&) { return s; }
};

struct Handler : public eckit::DefaultHandler<Request> {
    void handle(std::vector<Request*>&) {}
};

struct Traits {
    using Request = efacts_instances::Request;
    using Handler = efacts_instances::Handler;
    static const char* name() { return "name"; }
};

}  // namespace efacts_instances

template class eckit::ProducerConsumer<efacts_instances::Payload>;
template class eckit::ProducerConsumerTask<efacts_instances::Payload>;
template class eckit::Dispatcher<efacts_instances::Traits>;
template class eckit::DispatchTask<efacts_instances::Traits>;
template class eckit::DispatchInfo<efacts_instances::Traits>;
template class eckit::Queue<efacts_instances::Payload>;
template size_t eckit::Queue<efacts_instances::Payload>::emplace<int>(int&&);
template class eckit::AutoLock<eckit::Mutex>;
template class eckit::AutoLock<eckit::MutexCond>;
template class eckit::TimedAutoLock<eckit::Mutex>;
