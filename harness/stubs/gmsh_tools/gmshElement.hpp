#pragma once
#include "gmshMesh.hpp"
