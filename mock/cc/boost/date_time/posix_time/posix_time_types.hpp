#pragma once
namespace boost { namespace posix_time { struct ptime {}; struct time_duration {}; } }
