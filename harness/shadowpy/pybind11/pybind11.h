#include "embed.h"
