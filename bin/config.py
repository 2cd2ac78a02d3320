"""What decides each property."""


def u(name, *fns):
    return {"unit": name, "fns": list(fns)} if fns else name


REMOTE = ["Remote as PartialEq::eq", "Remote::new"]
SELECTORS = ["Selector::unicast", "Selector::multicast"]
SMALLVEC = "SmallVec<[T; N]> behaves as Vec<T>"
NET = "whether the system takes a message, when it arrives, whether a peer is alive, the clock and fresh identifiers are arbitrary functions of everything that happened before"
KERNEL = "recvmsg and sendmsg: a frame is written at once or not at all, read whole or with MSG_TRUNC, descriptors are withheld only with MSG_CTRUNC, and nothing is written outside the buffers that are passed"
MEMORY = "raw pointers, Vec::from_raw_parts, mem::forget and CMSG_* are stand-ins whose preconditions are the language's and the C library's rules (stay inside the allocation, aligned, initialised, no double owner)"
BINCODE = "bincode: what it encodes it decodes to the same value, and it refuses other bytes with an error"
MAPPING = "mmap, munmap, memfd_create, ftruncate and fstat do what their manual pages say; an atomic operation on mapped bytes changes the shared cell; pointers into a mapping are stand-ins that may be used only inside the mapping and the file"
EPOLL = "epoll and eventfd are level-triggered and report only watched descriptors that are ready; accept, epoll_create1 and eventfd give numbers that are not open; reading the clock takes no time; descriptors and memory suffice"
LOCKS = "no thread panics while it holds a lock; what others leave behind a lock satisfies the invariant every holder is checked to leave (a client keeps its options, a closed receiver stays closed); the controller's thread lives as long as its process"
BTREE = "BTreeMap<usize, _> is a sequence sorted by key; range, retain and entry do what their documentation says"
NAMES = "the system keeps names of abstract sockets apart byte by byte, at most one listens on a name, and connect reaches whoever does"
PROPS = {
    "C01": {
        "verus": ["label"],
        "trusted": [SMALLVEC, "string comparison of SmolStr and str is byte for byte"],
    },
    "C02": {
        "verus": [u("label"), u("bus", "BusController::handle_message", "BusController::detect_reachable", "BusController::new", *REMOTE), u("endpoint", "EndpointReceiver::recv"), u("values", *SELECTORS), u("io", "Remote::is_dead")],
        "trusted": [SMALLVEC, NET, LOCKS, "equality of labels (derived)", "mpsc::Sender::send delivers exactly when the receiver exists"],
        "assumptions": ["the fields endpoints, label, token and message_buffer are only touched by the functions under contract (they are private to bus_controller.rs)"],
    },
    "C03": {
        "verus": [u("bus", "deadline", "BusController::run@loop", "BusController::maintain", "BusController::handle_message"), u("values", *SELECTORS)],
        "trusted": [SMALLVEC, NET, "Instant and Duration are numbers of nanoseconds", "ConnectMessageAck frames are not kept (their remainder is None by contract)"],
    },
    "C04": {
        "verus": [u("bus", "BusController::endpoint_connect", "EncodedMessage::extract_remote", "BusController::handle_message", "BusController::new", *REMOTE), u("connect", "look_up"), u("join", "Rule::join"), u("values", "Options::new")],
        "trusted": [SMALLVEC, NET, "String equality is equality of characters", "decode::<ConnectMessage> is a function of the payload (its round trip is C06)"],
    },
    "C05": {
        "verus": [u("bus", "Version::major", "Version::minor", "Version::patch", "Version::compatible", "BusController::endpoint_connect", "BusController::run@loop"),
                  u("frame", "EncodedMessage::from_local"), u("connect", "look_up"), u("join", "Rule::join"), u("io", "IoHub::recv")],
        "trusted": [NET, KERNEL, MEMORY, EPOLL],
    },
    "C06": {
        "verus": [u("frame", "usize as Align4::align4", "read_u32", "split_frame", "alloc_buffer", "Message::encode_inner", "Message::into_encoded", "EncodedMessage::from_local", "EncodedMessage::send"),
                  u("endpoint", "Message::new", "EndpointSender::send", "EndpointReceiver::recv"), u("bus", "BusController::handle_message"), u("msgbox", "encode", "decode"), u("values", "deserialize_nested")],
        "trusted": [KERNEL, MEMORY, BINCODE],
        "assumptions": ["the serialised selector and payload are each shorter than 4 GiB", "fewer than 2^28 descriptors in one message"],
    },
    "C07": {
        "verus": [u("frame", "read_u32", "split_frame", "alloc_buffer", "EncodedMessage::from_local"), u("io", "IoHub::recv"), u("values", "deserialize_nested")],
        "trusted": [KERNEL, MEMORY, BINCODE, EPOLL, "a thread that decodes has its own count of the expressions around the one under way"],
    },
    "C08": {
        "verus": [u("region", "MappedRegion::map", "MappedRegion::unmap", "MappedRegion::from_object", "MappedRegion::as_slice", "MappedRegion::as_mut", "MappedRegion as Drop::drop", "trunc_page", "range_to_offset_size",
                    "MemoryRegion::obj_new", "MemoryRegion::obj_size", "MemoryRegion::header_length", "MemoryRegion::buffer_size", "MemoryRegion::object", "MemoryRegion::new", "MemoryRegion::try_from_object", "MemoryRegion::from_object", "MemoryRegion::map")],
        "trusted": [MAPPING],
        "assumptions": ["no process shortens a file behind a region", "the page size is a power of two"],
    },
    "C09": {
        "verus": [u("frame", "EncodedMessage::send", "EncodedMessage::from_local"),
                  u("region", "MemoryRegion::ref_count_inner", "MemoryRegion::ref_count", "MemoryRegion::clone", "MemoryRegion as Drop::drop", "MemoryRegion::new", "MemoryRegion::try_from_object", "MemoryRegion::from_object")],
        "trusted": [KERNEL, MEMORY, MAPPING],
    },
    "C10": {
        "verus": [u("registry", "MemoryRegistry::maintain_inner", "MemoryRegistry::alloc_inner", "MemoryRegistry::alloc", "MemoryRegistry::alloc_with_free", "MemoryRegistry::maintain")],
        "trusted": [BTREE, "with two handles of a region its count is two at least (C09)", "Instant and Duration are numbers of nanoseconds", "drop glue is where the code assigns over a guard and where retain removes an entry"],
    },
    "C11": {
        "verus": [u("registry", "Guard as Drop::drop", "MemoryRegistry::maintain_inner", "MemoryRegistry::alloc_inner", "MemoryRegistry::alloc", "MemoryRegistry::alloc_with_free", "MemoryRegistry::maintain")],
        "trusted": [BTREE, "with two handles of a region its count is two at least (C09)", "calling a boxed FnOnce consumes it (Rust ownership)", "drop glue is where the code assigns over a guard and where retain removes an entry; dropping the whole registry is under run-time contract"],
    },
    "C12": {
        "verus": [u("join", "Rule::join"), u("connect", "look_up", "register"), u("endpoint", "join"), u("values", "Options::new")],
        "trusted": [NAMES, "Instant and Duration are numbers of nanoseconds, and time passes only in calls that wait", "BusController::run starts its thread"],
        "assumptions": ["the identifier contains no NUL byte (known finding of C17)"],
    },
    "C13": {
        "verus": [u("io", "deadline", "IoHub::recv", "IoHub::for_endpoint", "IoMultiplexing::new", "IoMultiplexing::register", "IoMultiplexing::wait"),
                  u("endpoint", "EndpointReceiver::recv")],
        "trusted": [EPOLL, "Instant and Duration are numbers of nanoseconds", LOCKS],
    },
    "C14": {
        "verus": ["msgbox", u("endpoint", "Message::new", "EndpointSender::send", "EndpointReceiver::recv")],
        "trusted": [LOCKS, BINCODE, "type identifiers are different for different types (they are UUIDs)", "a hand-written MessageBox refuses another identifier with TypeUuidNotFound and bad data with Decode, as the blanket and the derived implementations are proved to",
                    "the derive macro is proved through its expansion for an enumeration of three alternatives and one of one: its template treats every alternative alike"],
    },
    "C15": {
        "verus": [u("endpoint", "SendError as From<JoinError>::from", "RecvError as From<JoinError>::from", "Rule::reader_close", "EndpointSender::send", "EndpointReceiver::recv", "EndpointReceiver as Drop::drop", "join"), u("join", "Rule::join"), u("connect", "look_up", "register"), u("values", "EndpointSender as Clone::clone")],
        "trusted": [LOCKS, NAMES],
    },
    "C16": {
        "verus": ["ffi", "handles"],
        "trusted": ["the functions of the Rust library do what C01 to C19 say (they are one event each here, with any outcome)", "a handle's methods are those of the value it was made from (Deref, proved to refer to it)", "CStr, slices from raw parts and Box::into_raw/from_raw do what their documentation says", "a C caller passes valid handles and pointers, and uses no handle after it gave it away"],
    },
    "C17": {
        "verus": [u("connect", "identifier_to_socket_addr", "look_up", "register"), u("join", "Rule::join")],
        "trusted": [NAMES, "strncpy and CString::new do what their documentation says"],
        "assumptions": ["the identifier contains no NUL byte and at most 106 bytes (known findings)"],
    },
    "C18": {
        "verus": [u("bus", "BusController::run@loop", "BusController::handle_message"), u("frame", "EncodedMessage::send", "EncodedMessage::from_local"),
                  u("io", "IoHub::recv", "IoHub::for_endpoint", "IoHub::for_bus_controller", "IoHub::io_multiplexing", "IoMultiplexing::new", "IoMultiplexing::register", "IoMultiplexing::wake", "IoMultiplexing::clear_waker"),
                  u("endpoint", "EndpointSender::send", "EndpointReceiver::recv"), u("values", "EndpointSender as Clone::clone")],
        "trusted": [SMALLVEC, NET, KERNEL, MEMORY, EPOLL, LOCKS, "mpsc and SOCK_SEQPACKET keep order"],
    },
    "C19": {
        "verus": [u("frame", "alloc_buffer", "Message::encode_inner", "EncodedMessage::from_local"), u("connect", "look_up", "register"),
                  u("bus", "BusController::detect_reachable"), u("io", "Remote::is_dead", "IoMultiplexing::new", "IoHub::recv"), u("values", "Fd::clone", "Fd::from_raw", "Fd::into_raw", "Fd::as_raw"),
                  u("region", "MappedRegion::map", "MappedRegion::unmap", "MappedRegion::from_object", "MappedRegion as Drop::drop", "MemoryRegion::obj_new")],
        "trusted": [KERNEL, MEMORY, MAPPING, EPOLL, "a value that owns a descriptor closes it when dropped (Rust ownership, OwnedFd)"],
    },
}
# quick level_note beyond what is generated
NOTES = {}
