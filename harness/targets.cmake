set(VFDIR ${CMAKE_CURRENT_LIST_DIR})
function(vf_harness name)
  cmake_parse_arguments(A "" "" "SRC;LIBS" ${ARGN})
  add_executable(${name} EXCLUDE_FROM_ALL)
  foreach(s ${A_SRC})
    target_sources(${name} PRIVATE ${VFDIR}/${s})
  endforeach()
  target_include_directories(${name} PRIVATE ${VFDIR})
  target_link_libraries(${name} ${A_LIBS})
  set_target_properties(${name} PROPERTIES RUNTIME_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/vf)
endfunction()
vf_harness(h_quad SRC quad.cpp LIBS HPGEM::HPGEM)
vf_harness(h_linalg SRC linalg.cpp linalg_small.cpp linalg_small4.cpp LIBS HPGEM::HPGEM)
vf_harness(h_mesh SRC mesh.cpp LIBS HPGEM::HPGEM)
vf_harness(h_basis SRC basis.cpp LIBS HPGEM::HPGEM)
vf_harness(h_conform SRC conform.cpp LIBS HPGEM::HPGEM)
vf_harness(h_phys SRC phys.cpp LIBS HPGEM::HPGEM)
vf_harness(h_integ SRC integ.cpp LIBS HPGEM::HPGEM)
vf_harness(h_geom SRC geom.cpp LIBS HPGEM::HPGEM)
vf_harness(h_tree SRC tree.cpp LIBS HPGEM::HPGEM)
vf_harness(h_cli SRC cli.cpp LIBS HPGEM::HPGEM)
vf_harness(h_ode SRC ode.cpp LIBS HPGEM::HPGEM)
vf_harness(h_data SRC data.cpp LIBS HPGEM::HPGEM)
vf_harness(h_index SRC index.cpp LIBS HPGEM::HPGEM)
vf_harness(h_assemble SRC assemble.cpp LIBS HPGEM::HPGEM)
vf_harness(h_prep SRC prep.cpp LIBS Preprocessor-lib)
target_include_directories(h_prep PRIVATE ${CMAKE_SOURCE_DIR}/applications/Preprocessor ${CMAKE_SOURCE_DIR}/applications/Preprocessor/lib)
vf_harness(h_refine SRC refine.cpp LIBS HPGEM::HPGEM)
vf_harness(h_dg SRC dg.cpp LIBS HPGEM::HPGEM)
vf_harness(h_output SRC output.cpp LIBS HPGEM::HPGEM)
if(TARGET DGMax-lib)
  vf_harness(h_dgmax SRC dgmax.cpp LIBS DGMax-lib)
endif()
