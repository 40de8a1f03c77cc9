/* Parsed in front of every unit: things the project's own toolchain (g++ / a newer Eigen) provides globally. */
#include <cstddef>
using std::nullptr_t;
#define setFromSortedTriplets setFromTriplets
