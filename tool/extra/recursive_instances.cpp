// Explicit instantiations of the recursive storage templates, which only the users of the library instantiate.
#include <cassert>
#include <cstddef>
#include "utilities/recursive_index.h"
namespace Moment {
    class ExtraChunk : public MonotonicChunkRecursiveStorage<size_t, ExtraChunk> {
    public:
        explicit ExtraChunk(std::span<const size_t> chunk_sizes, size_t max_depth, size_t zero = 0, ptrdiff_t offset = 0)
            : MonotonicChunkRecursiveStorage(chunk_sizes, max_depth, zero, offset) { }
        explicit ExtraChunk(size_t zero = 0, ptrdiff_t offset = 0) : MonotonicChunkRecursiveStorage(zero, offset) { }
    };
    template class RecursiveStorage<size_t, ExtraChunk>;
    template class MonotonicChunkRecursiveStorage<size_t, ExtraChunk>;
}
