#include "eckit/log/Log.h"
#include "eckit/runtime/PipeHandler.h"
namespace efacts_instances {
struct PipeRequest {
    void send(eckit::Stream&);
    void reply(eckit::Stream&);
    static PipeRequest* receive(eckit::Stream&);
    void done();
    bool error(std::exception&, int);
    static const char* commandName();
    void print(std::ostream&) const;
    friend std::ostream& operator<<(std::ostream& s, const PipeRequest& r) {
        r.print(s);
        return s;
    }
};
}
template class eckit::PipeHandler<efacts_instances::PipeRequest>;
