#include "stub.h"
