#include "msgpack_stub.h"
