#pragma once
#include "google/protobuf/struct.pb.h"
