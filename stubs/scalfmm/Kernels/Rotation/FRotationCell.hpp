#include "../../scalfmm_stub.hpp"
