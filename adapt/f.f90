! The Fortran interface, called with and without the optional arguments
include 'asagi.f90'

module verif_f
  use, intrinsic :: iso_c_binding
  use asagi
  implicit none
contains
  subroutine vf_constants( types, errors ) bind( c )
    integer( kind=c_int ), intent(out) :: types(5), errors(13)
    types = (/ ASAGI_BYTE, ASAGI_INT, ASAGI_LONG, ASAGI_FLOAT, ASAGI_DOUBLE /)
    errors = (/ ASAGI_SUCCESS, ASAGI_MPI_ERROR, ASAGI_THREAD_ERROR, ASAGI_NUMA_ERROR, ASAGI_UNKNOWN_PARAM, &
      ASAGI_INVALID_VALUE, ASAGI_NOT_INITIALIZED, ASAGI_ALREADY_INITIALIZED, ASAGI_NOT_OPEN, ASAGI_VAR_NOT_FOUND, &
      ASAGI_WRONG_SIZE, ASAGI_UNSUPPORTED_DIMENSIONS, ASAGI_INVALID_VAR_SIZE /)
  end subroutine
  function vf_create( t, o ) bind( c )
    integer( kind=c_int ), value :: t, o
    integer( kind=c_int ) :: vf_create
    if( o /= 0 ) then
      vf_create = asagi_grid_create()
    else
      vf_create = asagi_grid_create( t )
    endif
  end function
  function vf_create_array( t, o ) bind( c )
    integer( kind=c_int ), value :: t, o
    integer( kind=c_int ) :: vf_create_array
    if( o /= 0 ) then
      vf_create_array = asagi_grid_create_array()
    else
      vf_create_array = asagi_grid_create_array( t )
    endif
  end function
  function vf_create_struct( n, len, disp, t ) bind( c )
    integer( kind=c_int ), value :: n
    integer( kind=c_int ), intent(in) :: len(*), t(*)
    integer( kind=c_long ), intent(in) :: disp(*)
    integer( kind=c_int ) :: vf_create_struct
    vf_create_struct = asagi_grid_create_struct( n, len, disp, t )
  end function
  subroutine vf_set_threads( g, n ) bind( c )
    integer( kind=c_int ), value :: g, n
    call asagi_grid_set_threads( g, n )
  end subroutine
  subroutine vf_set_comm( g, c ) bind( c )
    integer( kind=c_int ), value :: g, c
    call asagi_grid_set_comm( g, c )
  end subroutine
  subroutine vf_set_param( g, name, n, val, m, l, o ) bind( c )
    integer( kind=c_int ), value :: g, n, m, l, o
    character( kind=c_char ), intent(in) :: name(*), val(*)
    character( len=n ) :: sn
    character( len=m ) :: sv
    integer :: i
    do i=1,n
      sn(i:i) = name(i)
    enddo
    do i=1,m
      sv(i:i) = val(i)
    enddo
    if( o /= 0 ) then
      call asagi_grid_set_param( g, sn, sv )
    else
      call asagi_grid_set_param( g, sn, sv, l )
    endif
  end subroutine
  function vf_open( g, name, n, l, o ) bind( c )
    integer( kind=c_int ), value :: g, n, l, o
    character( kind=c_char ), intent(in) :: name(*)
    integer( kind=c_int ) :: vf_open
    character( len=n ) :: sn
    integer :: i
    do i=1,n
      sn(i:i) = name(i)
    enddo
    if( o /= 0 ) then
      vf_open = asagi_grid_open( g, sn )
    else
      vf_open = asagi_grid_open( g, sn, l )
    endif
  end function
  function vf_dims( g ) bind( c )
    integer( kind=c_int ), value :: g
    integer( kind=c_int ) :: vf_dims
    vf_dims = asagi_grid_dimensions( g )
  end function
  function vf_min( g, n ) bind( c )
    integer( kind=c_int ), value :: g, n
    real( kind=c_double ) :: vf_min
    vf_min = asagi_grid_min( g, n )
  end function
  function vf_max( g, n ) bind( c )
    integer( kind=c_int ), value :: g, n
    real( kind=c_double ) :: vf_max
    vf_max = asagi_grid_max( g, n )
  end function
  function vf_delta( g, n, l, o ) bind( c )
    integer( kind=c_int ), value :: g, n, l, o
    real( kind=c_double ) :: vf_delta
    if( o /= 0 ) then
      vf_delta = asagi_grid_delta( g, n )
    else
      vf_delta = asagi_grid_delta( g, n, l )
    endif
  end function
  function vf_var_size( g ) bind( c )
    integer( kind=c_int ), value :: g
    integer( kind=c_int ) :: vf_var_size
    vf_var_size = asagi_grid_var_size( g )
  end function
  function vf_get_byte( g, pos, l, o ) bind( c )
    integer( kind=c_int ), value :: g, l, o
    real( kind=c_double ), intent(in) :: pos(*)
    character( kind=c_char ) :: vf_get_byte
    if( o /= 0 ) then
      vf_get_byte = asagi_grid_get_byte( g, pos )
    else
      vf_get_byte = asagi_grid_get_byte( g, pos, l )
    endif
  end function
  function vf_get_int( g, pos, l, o ) bind( c )
    integer( kind=c_int ), value :: g, l, o
    real( kind=c_double ), intent(in) :: pos(*)
    integer( kind=c_int ) :: vf_get_int
    if( o /= 0 ) then
      vf_get_int = asagi_grid_get_int( g, pos )
    else
      vf_get_int = asagi_grid_get_int( g, pos, l )
    endif
  end function
  function vf_get_long( g, pos, l, o ) bind( c )
    integer( kind=c_int ), value :: g, l, o
    real( kind=c_double ), intent(in) :: pos(*)
    integer( kind=c_long ) :: vf_get_long
    if( o /= 0 ) then
      vf_get_long = asagi_grid_get_long( g, pos )
    else
      vf_get_long = asagi_grid_get_long( g, pos, l )
    endif
  end function
  function vf_get_float( g, pos, l, o ) bind( c )
    integer( kind=c_int ), value :: g, l, o
    real( kind=c_double ), intent(in) :: pos(*)
    real( kind=c_float ) :: vf_get_float
    if( o /= 0 ) then
      vf_get_float = asagi_grid_get_float( g, pos )
    else
      vf_get_float = asagi_grid_get_float( g, pos, l )
    endif
  end function
  function vf_get_double( g, pos, l, o ) bind( c )
    integer( kind=c_int ), value :: g, l, o
    real( kind=c_double ), intent(in) :: pos(*)
    real( kind=c_double ) :: vf_get_double
    if( o /= 0 ) then
      vf_get_double = asagi_grid_get_double( g, pos )
    else
      vf_get_double = asagi_grid_get_double( g, pos, l )
    endif
  end function
  subroutine vf_get_buf( g, buf, pos, l, o ) bind( c )
    integer( kind=c_int ), value :: g, l, o
    type( c_ptr ), value :: buf
    real( kind=c_double ), intent(in) :: pos(*)
    type( c_ptr ) :: b
    b = buf
    if( o /= 0 ) then
      call asagi_grid_get_buf( g, b, pos )
    else
      call asagi_grid_get_buf( g, b, pos, l )
    endif
  end subroutine
  subroutine vf_close( g ) bind( c )
    integer( kind=c_int ), value :: g
    call asagi_grid_close( g )
  end subroutine
  function vf_start_comm( cpu, c ) bind( c )
    integer( kind=c_int ), value :: cpu, c
    integer( kind=c_int ) :: vf_start_comm
    vf_start_comm = asagi_start_comm_thread( cpu, c )
  end function
  subroutine vf_stop_comm() bind( c )
    call asagi_stop_comm_thread()
  end subroutine
  function vf_node_local_rank( c ) bind( c )
    integer( kind=c_int ), value :: c
    integer( kind=c_int ) :: vf_node_local_rank
    vf_node_local_rank = asagi_node_local_rank( c )
  end function
end module
