// the repository refers to this header but does not contain it
#include <memory_resource>
