// Not used: files are those of basic_stream_file.hpp.
#pragma once
