#include "config.hpp"
