"""Shared data and the functions allowed to touch them without the lock (with the reason)."""

def T(names, **kw):
    return {n: dict(kw) for n in names.split()}


REGISTRIES = {}
REGISTRIES.update(T("""
 eckit::Factory.store_ eckit::spec::GeneratorT.store_
 eckit::PathNameFactoryImpl.names_ eckit::PathNameFactoryImpl.builders_
 eckit::URIManagerRegistry.map_ eckit::CompressorFactory.builders_ eckit::HashFactory.builders_
 eckit::linalg::BackendRegistry.map_ eckit::linalg::BackendRegistry.default_
 eckit::message::SplitterFactory.decoders_ eckit::message::SplitterFactory.index_
 eckit::message::(anon)::index eckit::message::(anon)::decoders eckit::distributed::(anon)::m
 eckit::mpi::Environment.default_ eckit::mpi::Environment.communicators eckit::mpi::CommFactories.factories
 eckit::sql::SQLTableFactory.factories_ eckit::sql::expression::function::FunctionFactory.builders_
 eckit::sql::type::TypeRegistry.aliases_ eckit::sql::type::TypeRegistry.map_
 eckit::HttpResourceRegistry.map_
 eckit::system::LibraryRegistry.libs_ eckit::system::LibraryRegistry.plugins_
 eckit::system::LibraryRegistry.is_plugin_initialized_
 eckit::system::Library.prefixDirectory_ eckit::system::Library.home_ eckit::system::Library.libraryPath_
 eckit::system::Library.configuration_
 eckit::ClassExtent::Extent.map_ eckit::Configurable.resources_
 eckit::geo::AreaFactory.libraries_
 eckit::ResourceMgr.resmap_ eckit::ResourceMgr.inited_ eckit::EtcTable.lines_ eckit::EtcTable.last_
 eckit::RendezvousHash.nodes_
 eckit::FamSessionManager.sessions_ eckit::CURLHandle::options_registry_
 eckit::EtcTable.size_ eckit::system::LibraryRegistry.plugin_search_paths_ eckit::PathExpanderRegistry.map_
 eckit::StaticMutexRegister.set_
 eckit::codec::ActiveSession.session_ eckit::codec::SessionImpl.handles_ eckit::codec::SessionImpl.records_
"""))
CACHES = {}
for _n in ("stack_", "stackIndex_"):
    # nobody calls groupName()
    CACHES["eckit::MetricsCollector." + _n] = {"except": ["eckit::MetricsCollector::groupName"]}
CACHES.update(T("""
 eckit::geo::cache::RecordCacheT.cache_ eckit::geo::cache::CACHES eckit::geo::cache::MemoryCacheT.container_
 eckit::geo::search::TREES
 eckit::space eckit::LocalPathName::unique::n
 eckit::NodeInfo::init::myUser eckit::NodeInfo::init::myNode eckit::NodeInfo::init::myHost
 eckit::RotationOutputStream::instance::instances eckit::RotationOutputStream.last_
 eckit::RotationOutputStream.lastTime_ eckit::RotationOutputStream.buffer_
 eckit::count_ eckit::maxCount_ eckit::length_ eckit::maxLength_ eckit::sizes_ eckit::ids_
 eckit::net::cache eckit::current_
 eckit::(anon)::MetricsPrefixInfo.groupFullName eckit::(anon)::MetricsPrefixInfo.groupKeys
 eckit::(anon)::MetricsPrefixInfo.groupNextValue eckit::(anon)::MetricsPrefixInfo.groupValues
 eckit::MetricsCollector.created_ eckit::MetricsCollector.keys_ eckit::MetricsCollector.metrics_ eckit::MetricsCollector.timestamps_
 eckit::FileSpaceStrategies::roundRobin::value
 eckit::Grids::charGridTable_ eckit::Grids::gridCharTable_ eckit::Grids::nextChar_
 eckit::geo::grid::reduced::healpix_longitudes::cache eckit::geo::util::gaussian_latitudes::cache
 eckit::geo::util::gaussian_quadrature_weights::cache eckit::geo::util::linspace::cache
 eckit::geo::util::reduced_classical_pl::cache eckit::geo::util::reduced_octahedral_pl::cache
 eckit::geo::cache::Download::to_cached_path::CACHE eckit::geo::cache::(anon)::cache::CACHE
 eckit::RotationOutputStream.logFilesBufferSize_ eckit::RotationOutputStream.logfileFormat_ eckit::RotationOutputStream.name_
 eckit::mpi::SerialRequestPool.n_ eckit::mpi::SerialRequestPool.requests_ eckit::mpi::SerialRequestPool.send_
"""))
THREADS = T("""
 eckit::AsyncHandle.error_ eckit::AsyncHandle.message_
 eckit::Queue.queue_ eckit::Queue.max_ eckit::Queue.interrupt_ eckit::Queue.closed_
 eckit::Pipe.done_ eckit::Pipe.why_ eckit::Dispatcher.queue_ eckit::Dispatcher.running_
 eckit::CircularBuffer.size_ eckit::CircularBuffer.buffer_ eckit::CircularBuffer.pos_ eckit::CircularBuffer.used_
 eckit::OneBuffer.length_ eckit::OneBuffer.full_
 eckit::FilePool.inUse_ eckit::FilePool.cache_ (anon)::Pool.filePool_
 eckit::Thread.stop_ eckit::ThreadControler.running_
 eckit::ThreadPool.errorMessage_ eckit::ThreadPool.error_ eckit::ThreadPool.running_ eckit::ThreadPool.queue_
 eckit::ThreadPool.tasks_
 eckit::CircularBuffer.capacity_ eckit::CircularBuffer.increment_
 eckit::OnePayload.ready_ eckit::OnePayload.payload_ eckit::OnePayload.done_
 eckit::ProducedPayload.ready_ eckit::ProducedPayload.payload_ eckit::ProducedPayload.done_
""")

# before anything is queued the writer thread does not touch the queue: these assert just that
THREADS.update(T("eckit::AsyncHandle.used_ eckit::AsyncHandle.buffers_",
                 **{"except": ["eckit::AsyncHandle::openForWrite", "eckit::AsyncHandle::openForAppend"]}))
# set before the other thread starts, and looked at again once it has ended
THREADS["eckit::Pipe.error_"] = {"except": ["eckit::Pipe::spawn"]}
THREADS["eckit::ProducerConsumer.error_"] = {"except": ["eckit::ProducerConsumer::execute"]}
THREADS["eckit::Pipeline.error_"] = {"except": ["eckit::Pipeline::copy"]}
THREADS["eckit::DblBuffer.error_"] = {"except": ["eckit::DblBuffer::copy"]}
# the slot handed out belongs to one side until send()/receive() flips ready_
THREADS["eckit::OnePayload.payload_"]["hands-out"] = ["eckit::OnePayload.payload_:eckit::Pipe::message",
                                                      "eckit::OnePayload.payload_:eckit::Pipe::receive"]
# private to PathExpander.cc, whose functions all hold the registry's lock while they use what map() gives them
REGISTRIES["eckit::PathExpanderRegistry.map_"]["hands-out"] = ["eckit::PathExpanderRegistry.map_:eckit::PathExpanderRegistry::map"]
