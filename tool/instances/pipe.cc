#include "eckit/log/Log.h"
#include "eckit/runtime/Pipe.h"
namespace efacts_instances {
struct Payload {
    int i = 0;
};
}
template class eckit::Pipe<efacts_instances::Payload>;
template class eckit::PipeTask<efacts_instances::Payload>;
