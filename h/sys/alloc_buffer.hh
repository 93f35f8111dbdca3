#pragma once
struct BigHeapAllocation {};
