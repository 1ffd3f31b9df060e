#include <CL/sycl.hpp>
