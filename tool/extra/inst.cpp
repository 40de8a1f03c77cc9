// Explicit instantiations so that members of header templates the library itself does not use are analysed too.
#include "tensor/tensor.h"
#include "tensor/auto_storage_tensor.h"
#include "tensor/square_matrix.h"
#include "tensor/multi_dimensional_index_iterator.h"
#include "tensor/multi_dimensional_offset_index_iterator.h"
#include "utilities/small_vector.h"
#include "utilities/dynamic_bitset.h"
#include "utilities/index_tree.h"
#include "utilities/combinations.h"
#include "utilities/multi_partition.h"
#include "utilities/triangular_index_iterator.h"
#include "utilities/persistent_storage.h"
#include "utilities/shift_sorter.h"
#include "matrix_system/index_storage/vector_index_storage.h"
#include "matrix_system/index_storage/map_index_storage.h"
#include <memory>
#include <string>
namespace Moment {
    template class DynamicBitset<uint64_t, size_t>;
    template class SmallVector<size_t, 4>;
    template class SmallVector<double, 2>;
    template class IndexTree<size_t, size_t>;
    template class MultiDimensionalIndexIterator<true, std::vector<size_t>>;
    template class MultiDimensionalIndexIterator<false, std::vector<size_t>>;
    template class MultiDimensionalOffsetIndexIterator<true, std::vector<size_t>>;
    template class MultiDimensionalOffsetIndexIterator<false, std::vector<size_t>>;
    template class TriangularIndexIterator<size_t, std::vector<size_t>, true>;
    template class TriangularIndexIterator<size_t, std::vector<size_t>, false>;
    template class SquareMatrix<double>;
    template class MultipartitionIterator<int, false>;
    template class CombinationIndexIteratorBase<true>;
    template class CombinationIndexIteratorBase<false>;
    template class ShiftSorter<uint64_t>;
    struct ExtraStored { size_t x; };
    template class PersistentStorage<ExtraStored>;
    template class PersistentStorageMonoid<ExtraStored>;
    template class AutoStorageTensor<double, 10>;
    template class Tensor<size_t, AutoStorageIndex, AutoStorageIndexView, true>;
    template class Tensor<size_t, std::array<size_t, 2>, std::span<const size_t, 2>, true>;
    template class TensorRange<AutoStorageTensor<double, 10>>;
}
