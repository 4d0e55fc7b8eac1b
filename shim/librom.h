#include "./librom_shim.hpp"
