// Generated by gen_stubs.py: MPI entry points that are not simulated.
use super::*;
pub unsafe fn MPI_Alltoallw(_sendbuf: * const c_void , _sendcounts: * const c_int , _sdispls: * const c_int , _sendtypes: * const MPI_Datatype , _recvbuf: * mut c_void , _recvcounts: * const c_int , _rdispls: * const c_int , _recvtypes: * const MPI_Datatype , _comm: MPI_Comm ,) -> c_int { unsupported("MPI_Alltoallw") }
pub unsafe fn MPI_Ialltoallw(_sendbuf: * const c_void , _sendcounts: * const c_int , _sdispls: * const c_int , _sendtypes: * const MPI_Datatype , _recvbuf: * mut c_void , _recvcounts: * const c_int , _rdispls: * const c_int , _recvtypes: * const MPI_Datatype , _comm: MPI_Comm , _request: * mut MPI_Request ,) -> c_int { unsupported("MPI_Ialltoallw") }
pub unsafe fn MPI_Bsend_init(_buf: * const c_void , _count: c_int , _datatype: MPI_Datatype , _dest: c_int , _tag: c_int , _comm: MPI_Comm , _request: * mut MPI_Request ,) -> c_int { unsupported("MPI_Bsend_init") }
pub unsafe fn MPI_Cancel(_request: * mut MPI_Request ,) -> c_int { unsupported("MPI_Cancel") }
pub unsafe fn MPI_Cart_coords(_comm: MPI_Comm , _rank: c_int , _maxdims: c_int , _coords: * mut c_int ,) -> c_int { unsupported("MPI_Cart_coords") }
pub unsafe fn MPI_Cart_create(_old_comm: MPI_Comm , _ndims: c_int , _dims: * const c_int , _periods: * const c_int , _reorder: c_int , _comm_cart: * mut MPI_Comm ,) -> c_int { unsupported("MPI_Cart_create") }
pub unsafe fn MPI_Cart_get(_comm: MPI_Comm , _maxdims: c_int , _dims: * mut c_int , _periods: * mut c_int , _coords: * mut c_int ,) -> c_int { unsupported("MPI_Cart_get") }
pub unsafe fn MPI_Cart_map(_comm: MPI_Comm , _ndims: c_int , _dims: * const c_int , _periods: * const c_int , _newrank: * mut c_int ,) -> c_int { unsupported("MPI_Cart_map") }
pub unsafe fn MPI_Cart_rank(_comm: MPI_Comm , _coords: * const c_int , _rank: * mut c_int ,) -> c_int { unsupported("MPI_Cart_rank") }
pub unsafe fn MPI_Cart_shift(_comm: MPI_Comm , _direction: c_int , _disp: c_int , _rank_source: * mut c_int , _rank_dest: * mut c_int ,) -> c_int { unsupported("MPI_Cart_shift") }
pub unsafe fn MPI_Cart_sub(_comm: MPI_Comm , _remain_dims: * const c_int , _new_comm: * mut MPI_Comm ,) -> c_int { unsupported("MPI_Cart_sub") }
pub unsafe fn MPI_Cartdim_get(_comm: MPI_Comm , _ndims: * mut c_int ,) -> c_int { unsupported("MPI_Cartdim_get") }
pub unsafe fn MPI_Comm_create_group(_comm: MPI_Comm , _group: MPI_Group , _tag: c_int , _newcomm: * mut MPI_Comm ,) -> c_int { unsupported("MPI_Comm_create_group") }
pub unsafe fn MPI_Comm_create(_comm: MPI_Comm , _group: MPI_Group , _newcomm: * mut MPI_Comm ,) -> c_int { unsupported("MPI_Comm_create") }
pub unsafe fn MPI_Comm_dup(_comm: MPI_Comm , _newcomm: * mut MPI_Comm ,) -> c_int { unsupported("MPI_Comm_dup") }
pub unsafe fn MPI_Comm_idup(_comm: MPI_Comm , _newcomm: * mut MPI_Comm , _request: * mut MPI_Request ,) -> c_int { unsupported("MPI_Comm_idup") }
pub unsafe fn MPI_Comm_dup_with_info(_comm: MPI_Comm , _info: MPI_Info , _newcomm: * mut MPI_Comm ,) -> c_int { unsupported("MPI_Comm_dup_with_info") }
pub unsafe fn MPI_Comm_free(_comm: * mut MPI_Comm ,) -> c_int { unsupported("MPI_Comm_free") }
pub unsafe fn MPI_Comm_get_info(_comm: MPI_Comm , _info_used: * mut MPI_Info ,) -> c_int { unsupported("MPI_Comm_get_info") }
pub unsafe fn MPI_Comm_get_name(_comm: MPI_Comm , _comm_name: * mut c_char , _resultlen: * mut c_int ,) -> c_int { unsupported("MPI_Comm_get_name") }
pub unsafe fn MPI_Comm_group(_comm: MPI_Comm , _group: * mut MPI_Group ,) -> c_int { unsupported("MPI_Comm_group") }
pub unsafe fn MPI_Comm_set_info(_comm: MPI_Comm , _info: MPI_Info ,) -> c_int { unsupported("MPI_Comm_set_info") }
pub unsafe fn MPI_Comm_set_name(_comm: MPI_Comm , _comm_name: * const c_char ,) -> c_int { unsupported("MPI_Comm_set_name") }
pub unsafe fn MPI_Comm_split(_comm: MPI_Comm , _color: c_int , _key: c_int , _newcomm: * mut MPI_Comm ,) -> c_int { unsupported("MPI_Comm_split") }
pub unsafe fn MPI_Comm_split_type(_comm: MPI_Comm , _split_type: c_int , _key: c_int , _info: MPI_Info , _newcomm: * mut MPI_Comm ,) -> c_int { unsupported("MPI_Comm_split_type") }
pub unsafe fn MPI_Get_address(_location: * const c_void , _address: * mut MPI_Aint ,) -> c_int { unsupported("MPI_Get_address") }
pub unsafe fn MPI_Get_elements(_status: * const MPI_Status , _datatype: MPI_Datatype , _count: * mut c_int ,) -> c_int { unsupported("MPI_Get_elements") }
pub unsafe fn MPI_Get_elements_x(_status: * const MPI_Status , _datatype: MPI_Datatype , _count: * mut MPI_Count ,) -> c_int { unsupported("MPI_Get_elements_x") }
pub unsafe fn MPI_Get_library_version(_version: * mut c_char , _resultlen: * mut c_int ,) -> c_int { unsupported("MPI_Get_library_version") }
pub unsafe fn MPI_Get_processor_name(_name: * mut c_char , _resultlen: * mut c_int ,) -> c_int { unsupported("MPI_Get_processor_name") }
pub unsafe fn MPI_Group_compare(_group1: MPI_Group , _group2: MPI_Group , _result: * mut c_int ,) -> c_int { unsupported("MPI_Group_compare") }
pub unsafe fn MPI_Group_difference(_group1: MPI_Group , _group2: MPI_Group , _newgroup: * mut MPI_Group ,) -> c_int { unsupported("MPI_Group_difference") }
pub unsafe fn MPI_Group_excl(_group: MPI_Group , _n: c_int , _ranks: * const c_int , _newgroup: * mut MPI_Group ,) -> c_int { unsupported("MPI_Group_excl") }
pub unsafe fn MPI_Group_free(_group: * mut MPI_Group ,) -> c_int { unsupported("MPI_Group_free") }
pub unsafe fn MPI_Group_incl(_group: MPI_Group , _n: c_int , _ranks: * const c_int , _newgroup: * mut MPI_Group ,) -> c_int { unsupported("MPI_Group_incl") }
pub unsafe fn MPI_Group_intersection(_group1: MPI_Group , _group2: MPI_Group , _newgroup: * mut MPI_Group ,) -> c_int { unsupported("MPI_Group_intersection") }
pub unsafe fn MPI_Group_rank(_group: MPI_Group , _rank: * mut c_int ,) -> c_int { unsupported("MPI_Group_rank") }
pub unsafe fn MPI_Group_size(_group: MPI_Group , _size: * mut c_int ,) -> c_int { unsupported("MPI_Group_size") }
pub unsafe fn MPI_Group_translate_ranks(_group1: MPI_Group , _n: c_int , _ranks1: * const c_int , _group2: MPI_Group , _ranks2: * mut c_int ,) -> c_int { unsupported("MPI_Group_translate_ranks") }
pub unsafe fn MPI_Group_union(_group1: MPI_Group , _group2: MPI_Group , _newgroup: * mut MPI_Group ,) -> c_int { unsupported("MPI_Group_union") }
pub unsafe fn MPI_Improbe(_source: c_int , _tag: c_int , _comm: MPI_Comm , _flag: * mut c_int , _message: * mut MPI_Message , _status: * mut MPI_Status ,) -> c_int { unsupported("MPI_Improbe") }
pub unsafe fn MPI_Imrecv(_buf: * mut c_void , _count: c_int , _type_: MPI_Datatype , _message: * mut MPI_Message , _request: * mut MPI_Request ,) -> c_int { unsupported("MPI_Imrecv") }
pub unsafe fn MPI_Irsend(_buf: * const c_void , _count: c_int , _datatype: MPI_Datatype , _dest: c_int , _tag: c_int , _comm: MPI_Comm , _request: * mut MPI_Request ,) -> c_int { unsupported("MPI_Irsend") }
pub unsafe fn MPI_Op_commutative(_op: MPI_Op , _commute: * mut c_int ,) -> c_int { unsupported("MPI_Op_commutative") }
pub unsafe fn MPI_Op_create(_function: MPI_User_function , _commute: c_int , _op: * mut MPI_Op ,) -> c_int { unsupported("MPI_Op_create") }
pub unsafe fn MPI_Op_free(_op: * mut MPI_Op ,) -> c_int { unsupported("MPI_Op_free") }
pub unsafe fn MPI_Pack_external(_datarep: * const c_char , _inbuf: * const c_void , _incount: c_int , _datatype: MPI_Datatype , _outbuf: * mut c_void , _outsize: MPI_Aint , _position: * mut MPI_Aint ,) -> c_int { unsupported("MPI_Pack_external") }
pub unsafe fn MPI_Pack_external_size(_datarep: * const c_char , _incount: c_int , _datatype: MPI_Datatype , _size: * mut MPI_Aint ,) -> c_int { unsupported("MPI_Pack_external_size") }
pub unsafe fn MPI_Pack(_inbuf: * const c_void , _incount: c_int , _datatype: MPI_Datatype , _outbuf: * mut c_void , _outsize: c_int , _position: * mut c_int , _comm: MPI_Comm ,) -> c_int { unsupported("MPI_Pack") }
pub unsafe fn MPI_Pack_size(_incount: c_int , _datatype: MPI_Datatype , _comm: MPI_Comm , _size: * mut c_int ,) -> c_int { unsupported("MPI_Pack_size") }
pub unsafe fn MPI_Recv_init(_buf: * mut c_void , _count: c_int , _datatype: MPI_Datatype , _source: c_int , _tag: c_int , _comm: MPI_Comm , _request: * mut MPI_Request ,) -> c_int { unsupported("MPI_Recv_init") }
pub unsafe fn MPI_Reduce_local(_inbuf: * const c_void , _inoutbuf: * mut c_void , _count: c_int , _datatype: MPI_Datatype , _op: MPI_Op ,) -> c_int { unsupported("MPI_Reduce_local") }
pub unsafe fn MPI_Reduce_scatter(_sendbuf: * const c_void , _recvbuf: * mut c_void , _recvcounts: * const c_int , _datatype: MPI_Datatype , _op: MPI_Op , _comm: MPI_Comm ,) -> c_int { unsupported("MPI_Reduce_scatter") }
pub unsafe fn MPI_Ireduce_scatter(_sendbuf: * const c_void , _recvbuf: * mut c_void , _recvcounts: * const c_int , _datatype: MPI_Datatype , _op: MPI_Op , _comm: MPI_Comm , _request: * mut MPI_Request ,) -> c_int { unsupported("MPI_Ireduce_scatter") }
pub unsafe fn MPI_Request_get_status(_request: MPI_Request , _flag: * mut c_int , _status: * mut MPI_Status ,) -> c_int { unsupported("MPI_Request_get_status") }
pub unsafe fn MPI_Rsend_init(_buf: * const c_void , _count: c_int , _datatype: MPI_Datatype , _dest: c_int , _tag: c_int , _comm: MPI_Comm , _request: * mut MPI_Request ,) -> c_int { unsupported("MPI_Rsend_init") }
pub unsafe fn MPI_Send_init(_buf: * const c_void , _count: c_int , _datatype: MPI_Datatype , _dest: c_int , _tag: c_int , _comm: MPI_Comm , _request: * mut MPI_Request ,) -> c_int { unsupported("MPI_Send_init") }
pub unsafe fn MPI_Ssend_init(_buf: * const c_void , _count: c_int , _datatype: MPI_Datatype , _dest: c_int , _tag: c_int , _comm: MPI_Comm , _request: * mut MPI_Request ,) -> c_int { unsupported("MPI_Ssend_init") }
pub unsafe fn MPI_Start(_request: * mut MPI_Request ,) -> c_int { unsupported("MPI_Start") }
pub unsafe fn MPI_Startall(_count: c_int , _array_of_requests: * mut MPI_Request ,) -> c_int { unsupported("MPI_Startall") }
pub unsafe fn MPI_Testall(_count: c_int , _array_of_requests: * mut MPI_Request , _flag: * mut c_int , _array_of_statuses: * mut MPI_Status ,) -> c_int { unsupported("MPI_Testall") }
pub unsafe fn MPI_Testany(_count: c_int , _array_of_requests: * mut MPI_Request , _index: * mut c_int , _flag: * mut c_int , _status: * mut MPI_Status ,) -> c_int { unsupported("MPI_Testany") }
pub unsafe fn MPI_Test_cancelled(_status: * const MPI_Status , _flag: * mut c_int ,) -> c_int { unsupported("MPI_Test_cancelled") }
pub unsafe fn MPI_Testsome(_incount: c_int , _array_of_requests: * mut MPI_Request , _outcount: * mut c_int , _array_of_indices: * mut c_int , _array_of_statuses: * mut MPI_Status ,) -> c_int { unsupported("MPI_Testsome") }
pub unsafe fn MPI_Topo_test(_comm: MPI_Comm , _status: * mut c_int ,) -> c_int { unsupported("MPI_Topo_test") }
pub unsafe fn MPI_Type_commit(_type_: * mut MPI_Datatype ,) -> c_int { unsupported("MPI_Type_commit") }
pub unsafe fn MPI_Type_contiguous(_count: c_int , _oldtype: MPI_Datatype , _newtype: * mut MPI_Datatype ,) -> c_int { unsupported("MPI_Type_contiguous") }
pub unsafe fn MPI_Type_create_darray(_size: c_int , _rank: c_int , _ndims: c_int , _gsize_array: * const c_int , _distrib_array: * const c_int , _darg_array: * const c_int , _psize_array: * const c_int , _order: c_int , _oldtype: MPI_Datatype , _newtype: * mut MPI_Datatype ,) -> c_int { unsupported("MPI_Type_create_darray") }
pub unsafe fn MPI_Type_create_hindexed_block(_count: c_int , _blocklength: c_int , _array_of_displacements: * const MPI_Aint , _oldtype: MPI_Datatype , _newtype: * mut MPI_Datatype ,) -> c_int { unsupported("MPI_Type_create_hindexed_block") }
pub unsafe fn MPI_Type_create_hindexed(_count: c_int , _array_of_blocklengths: * const c_int , _array_of_displacements: * const MPI_Aint , _oldtype: MPI_Datatype , _newtype: * mut MPI_Datatype ,) -> c_int { unsupported("MPI_Type_create_hindexed") }
pub unsafe fn MPI_Type_create_hvector(_count: c_int , _blocklength: c_int , _stride: MPI_Aint , _oldtype: MPI_Datatype , _newtype: * mut MPI_Datatype ,) -> c_int { unsupported("MPI_Type_create_hvector") }
pub unsafe fn MPI_Type_create_indexed_block(_count: c_int , _blocklength: c_int , _array_of_displacements: * const c_int , _oldtype: MPI_Datatype , _newtype: * mut MPI_Datatype ,) -> c_int { unsupported("MPI_Type_create_indexed_block") }
pub unsafe fn MPI_Type_create_struct(_count: c_int , _array_of_block_lengths: * const c_int , _array_of_displacements: * const MPI_Aint , _array_of_types: * const MPI_Datatype , _newtype: * mut MPI_Datatype ,) -> c_int { unsupported("MPI_Type_create_struct") }
pub unsafe fn MPI_Type_create_subarray(_ndims: c_int , _size_array: * const c_int , _subsize_array: * const c_int , _start_array: * const c_int , _order: c_int , _oldtype: MPI_Datatype , _newtype: * mut MPI_Datatype ,) -> c_int { unsupported("MPI_Type_create_subarray") }
pub unsafe fn MPI_Type_create_resized(_oldtype: MPI_Datatype , _lb: MPI_Aint , _extent: MPI_Aint , _newtype: * mut MPI_Datatype ,) -> c_int { unsupported("MPI_Type_create_resized") }
pub unsafe fn MPI_Type_dup(_type_: MPI_Datatype , _newtype: * mut MPI_Datatype ,) -> c_int { unsupported("MPI_Type_dup") }
pub unsafe fn MPI_Type_free(_type_: * mut MPI_Datatype ,) -> c_int { unsupported("MPI_Type_free") }
pub unsafe fn MPI_Type_get_contents(_mtype: MPI_Datatype , _max_integers: c_int , _max_addresses: c_int , _max_datatypes: c_int , _array_of_integers: * mut c_int , _array_of_addresses: * mut MPI_Aint , _array_of_datatypes: * mut MPI_Datatype ,) -> c_int { unsupported("MPI_Type_get_contents") }
pub unsafe fn MPI_Type_get_envelope(_type_: MPI_Datatype , _num_integers: * mut c_int , _num_addresses: * mut c_int , _num_datatypes: * mut c_int , _combiner: * mut c_int ,) -> c_int { unsupported("MPI_Type_get_envelope") }
pub unsafe fn MPI_Type_get_extent(_type_: MPI_Datatype , _lb: * mut MPI_Aint , _extent: * mut MPI_Aint ,) -> c_int { unsupported("MPI_Type_get_extent") }
pub unsafe fn MPI_Type_get_extent_x(_type_: MPI_Datatype , _lb: * mut MPI_Count , _extent: * mut MPI_Count ,) -> c_int { unsupported("MPI_Type_get_extent_x") }
pub unsafe fn MPI_Type_get_true_extent(_datatype: MPI_Datatype , _true_lb: * mut MPI_Aint , _true_extent: * mut MPI_Aint ,) -> c_int { unsupported("MPI_Type_get_true_extent") }
pub unsafe fn MPI_Type_get_true_extent_x(_datatype: MPI_Datatype , _true_lb: * mut MPI_Count , _true_extent: * mut MPI_Count ,) -> c_int { unsupported("MPI_Type_get_true_extent_x") }
pub unsafe fn MPI_Type_indexed(_count: c_int , _array_of_blocklengths: * const c_int , _array_of_displacements: * const c_int , _oldtype: MPI_Datatype , _newtype: * mut MPI_Datatype ,) -> c_int { unsupported("MPI_Type_indexed") }
pub unsafe fn MPI_Type_size(_type_: MPI_Datatype , _size: * mut c_int ,) -> c_int { unsupported("MPI_Type_size") }
pub unsafe fn MPI_Type_size_x(_type_: MPI_Datatype , _size: * mut MPI_Count ,) -> c_int { unsupported("MPI_Type_size_x") }
pub unsafe fn MPI_Type_vector(_count: c_int , _blocklength: c_int , _stride: c_int , _oldtype: MPI_Datatype , _newtype: * mut MPI_Datatype ,) -> c_int { unsupported("MPI_Type_vector") }
pub unsafe fn MPI_Unpack(_inbuf: * const c_void , _insize: c_int , _position: * mut c_int , _outbuf: * mut c_void , _outcount: c_int , _datatype: MPI_Datatype , _comm: MPI_Comm ,) -> c_int { unsupported("MPI_Unpack") }
pub unsafe fn MPI_Unpack_external(_datarep: * const c_char , _inbuf: * const c_void , _insize: MPI_Aint , _position: * mut MPI_Aint , _outbuf: * mut c_void , _outcount: c_int , _datatype: MPI_Datatype ,) -> c_int { unsupported("MPI_Unpack_external") }
pub unsafe fn MPI_Waitall(_count: c_int , _array_of_requests: * mut MPI_Request , _array_of_statuses: * mut MPI_Status ,) -> c_int { unsupported("MPI_Waitall") }
pub unsafe fn MPI_Waitsome(_incount: c_int , _array_of_requests: * mut MPI_Request , _outcount: * mut c_int , _array_of_indices: * mut c_int , _array_of_statuses: * mut MPI_Status ,) -> c_int { unsupported("MPI_Waitsome") }
