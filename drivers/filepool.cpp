// Brings the file pool sources into one translation unit and instantiates its templates; contains no logic of its own.
#include <memory>
#include <functional>
#include <cassert>
#include "FilePool/src/lib/FileHandler.cpp"
#include "FilePool/src/lib/FileManager.cpp"
#include "FilePool/src/lib/LRUFileManager.cpp"
namespace drv {
struct Desc { int n; };
}
namespace Euclid { namespace FilePool {
template <> struct OpenCloseTrait<drv::Desc> { static drv::Desc open(const boost::filesystem::path& path, bool write); static void close(drv::Desc& fd); };
template std::pair<FileManager::FileId, drv::Desc> FileManager::open<drv::Desc>(const boost::filesystem::path&, bool, std::function<bool(FileId)>);
template void FileManager::close<drv::Desc>(FileId, drv::Desc&);
template std::unique_ptr<FileAccessor<drv::Desc>> FileHandler::getAccessor<drv::Desc>(Mode);
}}
