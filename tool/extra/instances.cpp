// Explicit instantiations of header templates that the library itself leaves uninstantiated, so that their bodies are analysed.
#include "utilities/persistent_storage.h"
#include "multithreading/queue.h"
#include <memory>
namespace Moment {
    struct ExtraStored { virtual ~ExtraStored() = default; int value = 0; };
    struct ExtraStoredChild : ExtraStored { };
    template class PersistentStorage<ExtraStored>;
    template class PersistentStorageMonoid<ExtraStored>;
    std::shared_ptr<ExtraStored> extra_create(PersistentStorageMonoid<ExtraStored>& s) {
        return s.create_if_empty<ExtraStoredChild>();
    }
}
#include <string>
namespace Moment {
    void extra_queue(Multithreading::Queue<std::string>& q) {
        q.push_back(std::string{"x"});
        q.emplace_back("y");
        (void) q.try_pop_front();
        (void) q.wait_pop_front();
        q.abort();
    }
}
