#include "absl/sx_all.h"
