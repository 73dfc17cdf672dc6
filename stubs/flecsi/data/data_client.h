#pragma once
// Stub: FleCSI is not available offline; only the empty base class is needed.
namespace flecsi { namespace data { struct data_client_t {}; } }
