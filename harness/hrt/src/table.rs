//! Entry points (generated by tools/gen_table.py).
use crate::cases::*;
use crate::drive::*;
use crate::spec::*;
mod core { use super::*;
symrt::harnesses_part! { CORE
    inf_arr0 => inf::<Arr0>();
    ovi_arr0 => over_inf::<Arr0>(1);
    try_arr0 => try_::<Arr0>(1);
    ovt_arr0 => over_try::<Arr0>(1);
    pai_arr0 => panic_inf::<Arr0>(1);
    pat_arr0 => panic_try::<Arr0>(1);
    lawid_arr0 => law_id::<Arr0>();
    lawidt_arr0 => law_id_try::<Arr0>();
    lawcomp_arr0 => law_comp::<Arr0>();
    lawtry_arr0 => law_try::<Arr0>();
    inf_arr1 => inf::<Arr1>();
    ovi_arr1 => over_inf::<Arr1>(3);
    try_arr1 => try_::<Arr1>(3);
    ovt_arr1 => over_try::<Arr1>(7);
    pai_arr1 => panic_inf::<Arr1>(3);
    pat_arr1 => panic_try::<Arr1>(7);
    lawid_arr1 => law_id::<Arr1>();
    lawidt_arr1 => law_id_try::<Arr1>();
    lawcomp_arr1 => law_comp::<Arr1>();
    lawtry_arr1 => law_try::<Arr1>();
    inf_arr2 => inf::<Arr2>();
    ovi_arr2 => over_inf::<Arr2>(3);
    try_arr2 => try_::<Arr2>(3);
    ovt_arr2 => over_try::<Arr2>(7);
    pai_arr2 => panic_inf::<Arr2>(3);
    pat_arr2 => panic_try::<Arr2>(7);
    lawid_arr2 => law_id::<Arr2>();
    lawidt_arr2 => law_id_try::<Arr2>();
    lawcomp_arr2 => law_comp::<Arr2>();
    lawtry_arr2 => law_try::<Arr2>();
    inf_arr3 => inf::<Arr3>();
    ovi_arr3 => over_inf::<Arr3>(3);
    try_arr3 => try_::<Arr3>(3);
    ovt_arr3 => over_try::<Arr3>(7);
    pai_arr3 => panic_inf::<Arr3>(3);
    pat_arr3 => panic_try::<Arr3>(7);
    lawid_arr3 => law_id::<Arr3>();
    lawidt_arr3 => law_id_try::<Arr3>();
    lawcomp_arr3 => law_comp::<Arr3>();
    lawtry_arr3 => law_try::<Arr3>();
    inf_arr4 => inf::<Arr4>();
    ovi_arr4 => over_inf::<Arr4>(3);
    try_arr4 => try_::<Arr4>(3);
    ovt_arr4 => over_try::<Arr4>(7);
    pai_arr4 => panic_inf::<Arr4>(3);
    pat_arr4 => panic_try::<Arr4>(7);
    lawid_arr4 => law_id::<Arr4>();
    lawidt_arr4 => law_id_try::<Arr4>();
    lawcomp_arr4 => law_comp::<Arr4>();
    lawtry_arr4 => law_try::<Arr4>();
    inf_arr6 => inf::<Arr6>();
    ovi_arr6 => over_inf::<Arr6>(3);
    try_arr6 => try_::<Arr6>(3);
    ovt_arr6 => over_try::<Arr6>(7);
    pai_arr6 => panic_inf::<Arr6>(3);
    pat_arr6 => panic_try::<Arr6>(7);
    lawid_arr6 => law_id::<Arr6>();
    lawidt_arr6 => law_id_try::<Arr6>();
    lawcomp_arr6 => law_comp::<Arr6>();
    lawtry_arr6 => law_try::<Arr6>();
    inf_arr8 => inf::<Arr8>();
    ovi_arr8 => over_inf::<Arr8>(3);
    try_arr8 => try_::<Arr8>(3);
    ovt_arr8 => over_try::<Arr8>(7);
    pai_arr8 => panic_inf::<Arr8>(3);
    pat_arr8 => panic_try::<Arr8>(7);
    lawid_arr8 => law_id::<Arr8>();
    lawidt_arr8 => law_id_try::<Arr8>();
    lawcomp_arr8 => law_comp::<Arr8>();
    lawtry_arr8 => law_try::<Arr8>();
    inf_bound_c => inf::<BoundC>();
    ovi_bound_c => over_inf::<BoundC>(3);
    try_bound_c => try_::<BoundC>(3);
    ovt_bound_c => over_try::<BoundC>(7);
    pai_bound_c => panic_inf::<BoundC>(3);
    pat_bound_c => panic_try::<BoundC>(7);
    lawid_bound_c => law_id::<BoundC>();
    lawidt_bound_c => law_id_try::<BoundC>();
    lawcomp_bound_c => law_comp::<BoundC>();
    lawtry_bound_c => law_try::<BoundC>();
    inf_cell_c => inf::<CellC>();
    ovi_cell_c => over_inf::<CellC>(3);
    try_cell_c => try_::<CellC>(3);
    ovt_cell_c => over_try::<CellC>(7);
    pai_cell_c => panic_inf::<CellC>(3);
    pat_cell_c => panic_try::<CellC>(7);
    lawid_cell_c => law_id::<CellC>();
    lawidt_cell_c => law_id_try::<CellC>();
    lawcomp_cell_c => law_comp::<CellC>();
    lawtry_cell_c => law_try::<CellC>();
    inf_ref_cell_c => inf::<RefCellC>();
    ovi_ref_cell_c => over_inf::<RefCellC>(3);
    try_ref_cell_c => try_::<RefCellC>(3);
    ovt_ref_cell_c => over_try::<RefCellC>(7);
    pai_ref_cell_c => panic_inf::<RefCellC>(3);
    pat_ref_cell_c => panic_try::<RefCellC>(7);
    lawid_ref_cell_c => law_id::<RefCellC>();
    lawidt_ref_cell_c => law_id_try::<RefCellC>();
    lawcomp_ref_cell_c => law_comp::<RefCellC>();
    lawtry_ref_cell_c => law_try::<RefCellC>();
    inf_unsafe_cell_c => inf::<UnsafeCellC>();
    ovi_unsafe_cell_c => over_inf::<UnsafeCellC>(3);
    try_unsafe_cell_c => try_::<UnsafeCellC>(3);
    ovt_unsafe_cell_c => over_try::<UnsafeCellC>(7);
    pai_unsafe_cell_c => panic_inf::<UnsafeCellC>(3);
    pat_unsafe_cell_c => panic_try::<UnsafeCellC>(7);
    lawid_unsafe_cell_c => law_id::<UnsafeCellC>();
    lawidt_unsafe_cell_c => law_id_try::<UnsafeCellC>();
    lawcomp_unsafe_cell_c => law_comp::<UnsafeCellC>();
    lawtry_unsafe_cell_c => law_try::<UnsafeCellC>();
    inf_flow0 => inf::<Flow0>();
    ovi_flow0 => over_inf::<Flow0>(3);
    try_flow0 => try_::<Flow0>(3);
    ovt_flow0 => over_try::<Flow0>(7);
    pai_flow0 => panic_inf::<Flow0>(3);
    pat_flow0 => panic_try::<Flow0>(7);
    lawid_flow0 => law_id::<Flow0>();
    lawidt_flow0 => law_id_try::<Flow0>();
    lawcomp_flow0 => law_comp::<Flow0>();
    lawtry_flow0 => law_try::<Flow0>();
    inf_flow1 => inf::<Flow1>();
    ovi_flow1 => over_inf::<Flow1>(3);
    try_flow1 => try_::<Flow1>(3);
    ovt_flow1 => over_try::<Flow1>(7);
    pai_flow1 => panic_inf::<Flow1>(3);
    pat_flow1 => panic_try::<Flow1>(7);
    lawid_flow1 => law_id::<Flow1>();
    lawidt_flow1 => law_id_try::<Flow1>();
    lawcomp_flow1 => law_comp::<Flow1>();
    lawtry_flow1 => law_try::<Flow1>();
    inf_option_c => inf::<OptionC>();
    ovi_option_c => over_inf::<OptionC>(3);
    try_option_c => try_::<OptionC>(3);
    ovt_option_c => over_try::<OptionC>(7);
    pai_option_c => panic_inf::<OptionC>(3);
    pat_option_c => panic_try::<OptionC>(7);
    lawid_option_c => law_id::<OptionC>();
    lawidt_option_c => law_id_try::<OptionC>();
    lawcomp_option_c => law_comp::<OptionC>();
    lawtry_option_c => law_try::<OptionC>();
    inf_option_iter => inf::<OptionIter>();
    ovi_option_iter => over_inf::<OptionIter>(3);
    try_option_iter => try_::<OptionIter>(3);
    ovt_option_iter => over_try::<OptionIter>(7);
    pai_option_iter => panic_inf::<OptionIter>(3);
    pat_option_iter => panic_try::<OptionIter>(7);
    lawid_option_iter => law_id::<OptionIter>();
    lawidt_option_iter => law_id_try::<OptionIter>();
    lawcomp_option_iter => law_comp::<OptionIter>();
    lawtry_option_iter => law_try::<OptionIter>();
    inf_phantom_c => inf::<PhantomC>();
    ovi_phantom_c => over_inf::<PhantomC>(1);
    try_phantom_c => try_::<PhantomC>(1);
    ovt_phantom_c => over_try::<PhantomC>(1);
    pai_phantom_c => panic_inf::<PhantomC>(1);
    pat_phantom_c => panic_try::<PhantomC>(1);
    lawid_phantom_c => law_id::<PhantomC>();
    lawidt_phantom_c => law_id_try::<PhantomC>();
    lawcomp_phantom_c => law_comp::<PhantomC>();
    lawtry_phantom_c => law_try::<PhantomC>();
    inf_poll_c => inf::<PollC>();
    ovi_poll_c => over_inf::<PollC>(3);
    try_poll_c => try_::<PollC>(3);
    ovt_poll_c => over_try::<PollC>(7);
    pai_poll_c => panic_inf::<PollC>(3);
    pat_poll_c => panic_try::<PollC>(7);
    lawid_poll_c => law_id::<PollC>();
    lawidt_poll_c => law_id_try::<PollC>();
    lawcomp_poll_c => law_comp::<PollC>();
    lawtry_poll_c => law_try::<PollC>();
    inf_range_c => inf::<RangeC>();
    ovi_range_c => over_inf::<RangeC>(3);
    try_range_c => try_::<RangeC>(3);
    ovt_range_c => over_try::<RangeC>(7);
    pai_range_c => panic_inf::<RangeC>(3);
    pat_range_c => panic_try::<RangeC>(7);
    lawid_range_c => law_id::<RangeC>();
    lawidt_range_c => law_id_try::<RangeC>();
    lawcomp_range_c => law_comp::<RangeC>();
    lawtry_range_c => law_try::<RangeC>();
    inf_range_from_c => inf::<RangeFromC>();
    ovi_range_from_c => over_inf::<RangeFromC>(3);
    try_range_from_c => try_::<RangeFromC>(3);
    ovt_range_from_c => over_try::<RangeFromC>(7);
    pai_range_from_c => panic_inf::<RangeFromC>(3);
    pat_range_from_c => panic_try::<RangeFromC>(7);
    lawid_range_from_c => law_id::<RangeFromC>();
    lawidt_range_from_c => law_id_try::<RangeFromC>();
    lawcomp_range_from_c => law_comp::<RangeFromC>();
    lawtry_range_from_c => law_try::<RangeFromC>();
    inf_range_incl_c => inf::<RangeInclC>();
    ovi_range_incl_c => over_inf::<RangeInclC>(3);
    try_range_incl_c => try_::<RangeInclC>(3);
    ovt_range_incl_c => over_try::<RangeInclC>(7);
    pai_range_incl_c => panic_inf::<RangeInclC>(3);
    pat_range_incl_c => panic_try::<RangeInclC>(7);
    lawid_range_incl_c => law_id::<RangeInclC>();
    lawidt_range_incl_c => law_id_try::<RangeInclC>();
    lawcomp_range_incl_c => law_comp::<RangeInclC>();
    lawtry_range_incl_c => law_try::<RangeInclC>();
    inf_range_to_c => inf::<RangeToC>();
    ovi_range_to_c => over_inf::<RangeToC>(3);
    try_range_to_c => try_::<RangeToC>(3);
    ovt_range_to_c => over_try::<RangeToC>(7);
    pai_range_to_c => panic_inf::<RangeToC>(3);
    pat_range_to_c => panic_try::<RangeToC>(7);
    lawid_range_to_c => law_id::<RangeToC>();
    lawidt_range_to_c => law_id_try::<RangeToC>();
    lawcomp_range_to_c => law_comp::<RangeToC>();
    lawtry_range_to_c => law_try::<RangeToC>();
    inf_range_to_incl_c => inf::<RangeToInclC>();
    ovi_range_to_incl_c => over_inf::<RangeToInclC>(3);
    try_range_to_incl_c => try_::<RangeToInclC>(3);
    ovt_range_to_incl_c => over_try::<RangeToInclC>(7);
    pai_range_to_incl_c => panic_inf::<RangeToInclC>(3);
    pat_range_to_incl_c => panic_try::<RangeToInclC>(7);
    lawid_range_to_incl_c => law_id::<RangeToInclC>();
    lawidt_range_to_incl_c => law_id_try::<RangeToInclC>();
    lawcomp_range_to_incl_c => law_comp::<RangeToInclC>();
    lawtry_range_to_incl_c => law_try::<RangeToInclC>();
    inf_result0 => inf::<Result0>();
    ovi_result0 => over_inf::<Result0>(3);
    try_result0 => try_::<Result0>(3);
    ovt_result0 => over_try::<Result0>(7);
    pai_result0 => panic_inf::<Result0>(3);
    pat_result0 => panic_try::<Result0>(7);
    lawid_result0 => law_id::<Result0>();
    lawidt_result0 => law_id_try::<Result0>();
    lawcomp_result0 => law_comp::<Result0>();
    lawtry_result0 => law_try::<Result0>();
    inf_result1 => inf::<Result1>();
    ovi_result1 => over_inf::<Result1>(3);
    try_result1 => try_::<Result1>(3);
    ovt_result1 => over_try::<Result1>(7);
    pai_result1 => panic_inf::<Result1>(3);
    pat_result1 => panic_try::<Result1>(7);
    lawid_result1 => law_id::<Result1>();
    lawidt_result1 => law_id_try::<Result1>();
    lawcomp_result1 => law_comp::<Result1>();
    lawtry_result1 => law_try::<Result1>();
    inf_result_iter => inf::<ResultIter>();
    ovi_result_iter => over_inf::<ResultIter>(3);
    try_result_iter => try_::<ResultIter>(3);
    ovt_result_iter => over_try::<ResultIter>(7);
    pai_result_iter => panic_inf::<ResultIter>(3);
    pat_result_iter => panic_try::<ResultIter>(7);
    lawid_result_iter => law_id::<ResultIter>();
    lawidt_result_iter => law_id_try::<ResultIter>();
    lawcomp_result_iter => law_comp::<ResultIter>();
    lawtry_result_iter => law_try::<ResultIter>();
    spec_i_al_pl3 => spec_inf::<AlPl3>(3);
    spec_t_al_pl3 => spec_try::<AlPl3>(7);
    spec_i_pl_al3 => spec_inf::<PlAl3>(3);
    spec_t_pl_al3 => spec_try::<PlAl3>(7);
    spec_i_al_al2 => spec_inf::<AlAl2>(3);
    spec_t_al_al2 => spec_try::<AlAl2>(7);
    spec_i_la_la3 => spec_inf::<LaLa3>(3);
    spec_t_la_la3 => spec_try::<LaLa3>(7);
    spec_i_la_ti4 => spec_inf::<LaTi4>(3);
    spec_t_la_ti4 => spec_try::<LaTi4>(7);
    spec_i_ti_la4 => spec_inf::<TiLa4>(3);
    spec_t_ti_la4 => spec_try::<TiLa4>(7);
    spec_i_ti_ti5 => spec_inf::<TiTi5>(3);
    spec_t_ti_ti5 => spec_try::<TiTi5>(7);
    spec_i_he_he3 => spec_inf::<HeHe3>(3);
    spec_t_he_he3 => spec_try::<HeHe3>(7);
    spec_i_he_pl4 => spec_inf::<HePl4>(3);
    spec_t_he_pl4 => spec_try::<HePl4>(7);
    spec_i_pl_ni3 => spec_inf::<PlNi3>(3);
    spec_t_pl_ni3 => spec_try::<PlNi3>(7);
    spec_i_ni_mi3 => spec_inf::<NiMi3>(3);
    spec_t_ni_mi3 => spec_try::<NiMi3>(7);
    spec_i_mi_ti1 => spec_inf::<MiTi1>(3);
    spec_t_mi_ti1 => spec_try::<MiTi1>(7);
    spec_i_ti_he7 => spec_inf::<TiHe7>(3);
    spec_t_ti_he7 => spec_try::<TiHe7>(7);
    spec_i_la_he0 => spec_inf::<LaHe0>(1);
    spec_t_la_he0 => spec_try::<LaHe0>(1);
    spec_zst0 => zst::<0>();
    spec_zst_inf0 => zst_inf::<0>();
    spec_no_result0 => no_result::<0>();
    spec_no_error0 => no_error::<0>();
    spec_zst1 => zst::<1>();
    spec_zst_inf1 => zst_inf::<1>();
    spec_no_result1 => no_result::<1>();
    spec_no_error1 => no_error::<1>();
    spec_zst2 => zst::<2>();
    spec_zst_inf2 => zst_inf::<2>();
    spec_no_result2 => no_result::<2>();
    spec_no_error2 => no_error::<2>();
    spec_zst3 => zst::<3>();
    spec_zst_inf3 => zst_inf::<3>();
    spec_no_result3 => no_result::<3>();
    spec_no_error3 => no_error::<3>();
    spec_zst5 => zst::<5>();
    spec_zst_inf5 => zst_inf::<5>();
    spec_no_result5 => no_result::<5>();
    spec_no_error5 => no_error::<5>();
    spec_zst16 => zst::<16>();
    spec_zst33 => zst::<33>();
    spec_empty => empty();
    spec_niches => niches();
    comm_result => comm_result_();
    comm_flow => comm_flow_();
} }
#[cfg(feature = "native")]
pub use core::CORE;
#[cfg(feature = "alloc")]
mod alloc { use super::*;
symrt::harnesses_part! { ALLOC
    inf_box_c => inf::<BoxC>();
    ovi_box_c => over_inf::<BoxC>(3);
    try_box_c => try_::<BoxC>(3);
    ovt_box_c => over_try::<BoxC>(7);
    pai_box_c => panic_inf::<BoxC>(3);
    pat_box_c => panic_try::<BoxC>(7);
    lawid_box_c => law_id::<BoxC>();
    lawidt_box_c => law_id_try::<BoxC>();
    lawcomp_box_c => law_comp::<BoxC>();
    lawtry_box_c => law_try::<BoxC>();
    inf_vec_c => inf::<VecC>();
    ovi_vec_c => over_inf::<VecC>(3);
    try_vec_c => try_::<VecC>(3);
    ovt_vec_c => over_try::<VecC>(7);
    pai_vec_c => panic_inf::<VecC>(3);
    pat_vec_c => panic_try::<VecC>(7);
    lawid_vec_c => law_id::<VecC>();
    lawidt_vec_c => law_id_try::<VecC>();
    lawcomp_vec_c => law_comp::<VecC>();
    lawtry_vec_c => law_try::<VecC>();
    inf_vec_iter => inf::<VecIter>();
    ovi_vec_iter => over_inf::<VecIter>(3);
    try_vec_iter => try_::<VecIter>(3);
    ovt_vec_iter => over_try::<VecIter>(7);
    pai_vec_iter => panic_inf::<VecIter>(3);
    pat_vec_iter => panic_try::<VecIter>(7);
    lawid_vec_iter => law_id::<VecIter>();
    lawidt_vec_iter => law_id_try::<VecIter>();
    lawcomp_vec_iter => law_comp::<VecIter>();
    lawtry_vec_iter => law_try::<VecIter>();
    inf_deque_c => inf::<DequeC>();
    ovi_deque_c => over_inf::<DequeC>(3);
    try_deque_c => try_::<DequeC>(3);
    ovt_deque_c => over_try::<DequeC>(7);
    pai_deque_c => panic_inf::<DequeC>(3);
    pat_deque_c => panic_try::<DequeC>(7);
    lawid_deque_c => law_id::<DequeC>();
    lawidt_deque_c => law_id_try::<DequeC>();
    lawcomp_deque_c => law_comp::<DequeC>();
    lawtry_deque_c => law_try::<DequeC>();
    inf_deque_iter => inf::<DequeIter>();
    ovi_deque_iter => over_inf::<DequeIter>(3);
    try_deque_iter => try_::<DequeIter>(3);
    ovt_deque_iter => over_try::<DequeIter>(7);
    pai_deque_iter => panic_inf::<DequeIter>(3);
    pat_deque_iter => panic_try::<DequeIter>(7);
    lawid_deque_iter => law_id::<DequeIter>();
    lawidt_deque_iter => law_id_try::<DequeIter>();
    lawcomp_deque_iter => law_comp::<DequeIter>();
    lawtry_deque_iter => law_try::<DequeIter>();
    inf_list_c => inf::<ListC>();
    ovi_list_c => over_inf::<ListC>(3);
    try_list_c => try_::<ListC>(3);
    ovt_list_c => over_try::<ListC>(7);
    pai_list_c => panic_inf::<ListC>(3);
    pat_list_c => panic_try::<ListC>(7);
    lawid_list_c => law_id::<ListC>();
    lawidt_list_c => law_id_try::<ListC>();
    lawcomp_list_c => law_comp::<ListC>();
    lawtry_list_c => law_try::<ListC>();
    inf_list_iter => inf::<ListIter>();
    ovi_list_iter => over_inf::<ListIter>(3);
    try_list_iter => try_::<ListIter>(3);
    ovt_list_iter => over_try::<ListIter>(7);
    pai_list_iter => panic_inf::<ListIter>(3);
    pat_list_iter => panic_try::<ListIter>(7);
    lawid_list_iter => law_id::<ListIter>();
    lawidt_list_iter => law_id_try::<ListIter>();
    lawcomp_list_iter => law_comp::<ListIter>();
    lawtry_list_iter => law_try::<ListIter>();
    inf_heap_c => inf::<HeapC>();
    ovi_heap_c => over_inf::<HeapC>(3);
    try_heap_c => try_::<HeapC>(3);
    ovt_heap_c => over_try::<HeapC>(7);
    pai_heap_c => panic_inf::<HeapC>(3);
    pat_heap_c => panic_try::<HeapC>(7);
    lawid_heap_c => law_id::<HeapC>();
    lawidt_heap_c => law_id_try::<HeapC>();
    lawcomp_heap_c => law_comp::<HeapC>();
    lawtry_heap_c => law_try::<HeapC>();
    inf_heap_iter => inf::<HeapIter>();
    ovi_heap_iter => over_inf::<HeapIter>(3);
    try_heap_iter => try_::<HeapIter>(3);
    ovt_heap_iter => over_try::<HeapIter>(7);
    pai_heap_iter => panic_inf::<HeapIter>(3);
    pat_heap_iter => panic_try::<HeapIter>(7);
    lawid_heap_iter => law_id::<HeapIter>();
    lawidt_heap_iter => law_id_try::<HeapIter>();
    lawcomp_heap_iter => law_comp::<HeapIter>();
    lawtry_heap_iter => law_try::<HeapIter>();
    inf_set_c => inf::<SetC>();
    ovi_set_c => over_inf::<SetC>(3);
    try_set_c => try_::<SetC>(3);
    ovt_set_c => over_try::<SetC>(7);
    pai_set_c => panic_inf::<SetC>(3);
    pat_set_c => panic_try::<SetC>(7);
    lawid_set_c => law_id::<SetC>();
    lawidt_set_c => law_id_try::<SetC>();
    lawcomp_set_c => law_comp::<SetC>();
    lawtry_set_c => law_try::<SetC>();
    inf_set_iter => inf::<SetIter>();
    ovi_set_iter => over_inf::<SetIter>(3);
    try_set_iter => try_::<SetIter>(3);
    ovt_set_iter => over_try::<SetIter>(7);
    pai_set_iter => panic_inf::<SetIter>(3);
    pat_set_iter => panic_try::<SetIter>(7);
    lawid_set_iter => law_id::<SetIter>();
    lawidt_set_iter => law_id_try::<SetIter>();
    lawcomp_set_iter => law_comp::<SetIter>();
    lawtry_set_iter => law_try::<SetIter>();
    inf_map_c0 => inf::<MapC0>();
    ovi_map_c0 => over_inf::<MapC0>(3);
    try_map_c0 => try_::<MapC0>(3);
    ovt_map_c0 => over_try::<MapC0>(7);
    pai_map_c0 => panic_inf::<MapC0>(3);
    pat_map_c0 => panic_try::<MapC0>(7);
    lawid_map_c0 => law_id::<MapC0>();
    lawidt_map_c0 => law_id_try::<MapC0>();
    lawcomp_map_c0 => law_comp::<MapC0>();
    lawtry_map_c0 => law_try::<MapC0>();
    inf_map_iter0 => inf::<MapIter0>();
    ovi_map_iter0 => over_inf::<MapIter0>(3);
    try_map_iter0 => try_::<MapIter0>(3);
    ovt_map_iter0 => over_try::<MapIter0>(7);
    pai_map_iter0 => panic_inf::<MapIter0>(3);
    pat_map_iter0 => panic_try::<MapIter0>(7);
    lawid_map_iter0 => law_id::<MapIter0>();
    lawidt_map_iter0 => law_id_try::<MapIter0>();
    lawcomp_map_iter0 => law_comp::<MapIter0>();
    lawtry_map_iter0 => law_try::<MapIter0>();
    inf_map_c1 => inf::<MapC1>();
    ovi_map_c1 => over_inf::<MapC1>(3);
    try_map_c1 => try_::<MapC1>(3);
    ovt_map_c1 => over_try::<MapC1>(7);
    pai_map_c1 => panic_inf::<MapC1>(3);
    pat_map_c1 => panic_try::<MapC1>(7);
    lawid_map_c1 => law_id::<MapC1>();
    lawidt_map_c1 => law_id_try::<MapC1>();
    lawcomp_map_c1 => law_comp::<MapC1>();
    lawtry_map_c1 => law_try::<MapC1>();
    inf_map_iter1 => inf::<MapIter1>();
    ovi_map_iter1 => over_inf::<MapIter1>(3);
    try_map_iter1 => try_::<MapIter1>(3);
    ovt_map_iter1 => over_try::<MapIter1>(7);
    pai_map_iter1 => panic_inf::<MapIter1>(3);
    pat_map_iter1 => panic_try::<MapIter1>(7);
    lawid_map_iter1 => law_id::<MapIter1>();
    lawidt_map_iter1 => law_id_try::<MapIter1>();
    lawcomp_map_iter1 => law_comp::<MapIter1>();
    lawtry_map_iter1 => law_try::<MapIter1>();
    comm_btree => comm_btree_();
} }
#[cfg(feature = "alloc")]
#[cfg(feature = "native")]
pub use alloc::ALLOC;
#[cfg(feature = "std")]
mod std { use super::*;
symrt::harnesses_part! { STD
    inf_h_set_c => inf::<HSetC>();
    ovi_h_set_c => over_inf::<HSetC>(3);
    try_h_set_c => try_::<HSetC>(3);
    ovt_h_set_c => over_try::<HSetC>(7);
    pai_h_set_c => panic_inf::<HSetC>(3);
    pat_h_set_c => panic_try::<HSetC>(7);
    lawid_h_set_c => law_id::<HSetC>();
    lawidt_h_set_c => law_id_try::<HSetC>();
    lawcomp_h_set_c => law_comp::<HSetC>();
    lawtry_h_set_c => law_try::<HSetC>();
    inf_h_set_iter => inf::<HSetIter>();
    ovi_h_set_iter => over_inf::<HSetIter>(3);
    try_h_set_iter => try_::<HSetIter>(3);
    ovt_h_set_iter => over_try::<HSetIter>(7);
    pai_h_set_iter => panic_inf::<HSetIter>(3);
    pat_h_set_iter => panic_try::<HSetIter>(7);
    lawid_h_set_iter => law_id::<HSetIter>();
    lawidt_h_set_iter => law_id_try::<HSetIter>();
    lawcomp_h_set_iter => law_comp::<HSetIter>();
    lawtry_h_set_iter => law_try::<HSetIter>();
    inf_h_map_c0 => inf::<HMapC0>();
    ovi_h_map_c0 => over_inf::<HMapC0>(3);
    try_h_map_c0 => try_::<HMapC0>(3);
    ovt_h_map_c0 => over_try::<HMapC0>(7);
    pai_h_map_c0 => panic_inf::<HMapC0>(3);
    pat_h_map_c0 => panic_try::<HMapC0>(7);
    lawid_h_map_c0 => law_id::<HMapC0>();
    lawidt_h_map_c0 => law_id_try::<HMapC0>();
    lawcomp_h_map_c0 => law_comp::<HMapC0>();
    lawtry_h_map_c0 => law_try::<HMapC0>();
    inf_h_map_iter0 => inf::<HMapIter0>();
    ovi_h_map_iter0 => over_inf::<HMapIter0>(3);
    try_h_map_iter0 => try_::<HMapIter0>(3);
    ovt_h_map_iter0 => over_try::<HMapIter0>(7);
    pai_h_map_iter0 => panic_inf::<HMapIter0>(3);
    pat_h_map_iter0 => panic_try::<HMapIter0>(7);
    lawid_h_map_iter0 => law_id::<HMapIter0>();
    lawidt_h_map_iter0 => law_id_try::<HMapIter0>();
    lawcomp_h_map_iter0 => law_comp::<HMapIter0>();
    lawtry_h_map_iter0 => law_try::<HMapIter0>();
    inf_h_map_c1 => inf::<HMapC1>();
    ovi_h_map_c1 => over_inf::<HMapC1>(3);
    try_h_map_c1 => try_::<HMapC1>(3);
    ovt_h_map_c1 => over_try::<HMapC1>(7);
    pai_h_map_c1 => panic_inf::<HMapC1>(3);
    pat_h_map_c1 => panic_try::<HMapC1>(7);
    lawid_h_map_c1 => law_id::<HMapC1>();
    lawidt_h_map_c1 => law_id_try::<HMapC1>();
    lawcomp_h_map_c1 => law_comp::<HMapC1>();
    lawtry_h_map_c1 => law_try::<HMapC1>();
    inf_h_map_iter1 => inf::<HMapIter1>();
    ovi_h_map_iter1 => over_inf::<HMapIter1>(3);
    try_h_map_iter1 => try_::<HMapIter1>(3);
    ovt_h_map_iter1 => over_try::<HMapIter1>(7);
    pai_h_map_iter1 => panic_inf::<HMapIter1>(3);
    pat_h_map_iter1 => panic_try::<HMapIter1>(7);
    lawid_h_map_iter1 => law_id::<HMapIter1>();
    lawidt_h_map_iter1 => law_id_try::<HMapIter1>();
    lawcomp_h_map_iter1 => law_comp::<HMapIter1>();
    lawtry_h_map_iter1 => law_try::<HMapIter1>();
    inf_h_map_s0 => inf::<HMapS0>();
    ovi_h_map_s0 => over_inf::<HMapS0>(3);
    try_h_map_s0 => try_::<HMapS0>(3);
    ovt_h_map_s0 => over_try::<HMapS0>(7);
    pai_h_map_s0 => panic_inf::<HMapS0>(3);
    pat_h_map_s0 => panic_try::<HMapS0>(7);
    lawid_h_map_s0 => law_id::<HMapS0>();
    lawidt_h_map_s0 => law_id_try::<HMapS0>();
    lawcomp_h_map_s0 => law_comp::<HMapS0>();
    lawtry_h_map_s0 => law_try::<HMapS0>();
    inf_h_map_s1 => inf::<HMapS1>();
    ovi_h_map_s1 => over_inf::<HMapS1>(3);
    try_h_map_s1 => try_::<HMapS1>(3);
    ovt_h_map_s1 => over_try::<HMapS1>(7);
    pai_h_map_s1 => panic_inf::<HMapS1>(3);
    pat_h_map_s1 => panic_try::<HMapS1>(7);
    lawid_h_map_s1 => law_id::<HMapS1>();
    lawidt_h_map_s1 => law_id_try::<HMapS1>();
    lawcomp_h_map_s1 => law_comp::<HMapS1>();
    lawtry_h_map_s1 => law_try::<HMapS1>();
    inf_h_set_s => inf::<HSetS>();
    ovi_h_set_s => over_inf::<HSetS>(3);
    try_h_set_s => try_::<HSetS>(3);
    ovt_h_set_s => over_try::<HSetS>(7);
    pai_h_set_s => panic_inf::<HSetS>(3);
    pat_h_set_s => panic_try::<HSetS>(7);
    lawid_h_set_s => law_id::<HSetS>();
    lawidt_h_set_s => law_id_try::<HSetS>();
    lawcomp_h_set_s => law_comp::<HSetS>();
    lawtry_h_set_s => law_try::<HSetS>();
    comm_hash => comm_hash_();
} }
#[cfg(feature = "std")]
#[cfg(feature = "native")]
pub use std::STD;
