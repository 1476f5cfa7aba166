#pragma once
#define absl_nonnull
#define absl_nullable
