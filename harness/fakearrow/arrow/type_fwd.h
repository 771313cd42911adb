#pragma once
namespace arrow {
class Status;
class Buffer;
template<typename T> class Result;
}
