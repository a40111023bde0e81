#include <functional>
#include <ostream>
#include <string>
#include "eckit/log/Log.h"
#include "eckit/container/BTree.h"
#include "eckit/container/BloomFilter.h"
#include "eckit/container/Cache.h"
#include "eckit/container/CacheLRU.h"
#include "eckit/container/DenseMap.h"
#include "eckit/container/DenseSet.h"
#include "eckit/container/Recycler.h"
#include "eckit/container/Trie.h"
#include "eckit/io/ResizableBuffer.h"
#include "eckit/io/FileBase.h"
#include "eckit/memory/OnlyMovable.h"
#include "eckit/serialisation/HandleStream.h"
#include "eckit/serialisation/FstreamStream.h"
#include "eckit/serialisation/IfstreamStream.h"
#include "eckit/utils/RLE.h"
#include "eckit/utils/Overloaded.h"
#include "eckit/types/FixedString.h"
#include "eckit/config/JSONConfiguration.h"
#include "eckit/compat/StrStream.h"
#include "eckit/option/SimpleOption.h"
#include "eckit/option/VectorOption.h"
#include "eckit/web/FtpRequest.h"
#include "eckit/testing/ProcessFork.h"

using Key = eckit::FixedString<32>;
struct Val {
    long a;
    double b;
    friend std::ostream& operator<<(std::ostream& s, const Val&) { return s; }
};
template class eckit::BTree<Key, Val, 64 * 1024, eckit::BTreeLock>;
template class eckit::BTree<long, long, 64 * 1024, eckit::BTreeNoLock>;
template class eckit::CacheLRU<std::string, long>;
template class eckit::BloomFilter<std::string>;
template class eckit::DenseMap<std::string, long>;
template class eckit::DenseSet<std::string>;
template class eckit::Recycler<long>;
template class eckit::Trie<long>;
template class eckit::option::VectorOption<long>;
template class eckit::option::SimpleOption<long>;
template class eckit::FileBase<Val>;
