# Runs a generated build file, recording which packages it names and asks for.
set(OUT "")
function(cmake_minimum_required)
endfunction()
function(project name)
  file(APPEND "${VERIF_OUT}" "project\t${name}\n")
  set(PROJECT_NAME "${name}" PARENT_SCOPE)
endfunction()
function(find_package name)
  cmake_parse_arguments(A "REQUIRED;QUIET" "" "COMPONENTS" ${ARGN})
  foreach(c IN LISTS A_COMPONENTS)
    file(APPEND "${VERIF_OUT}" "component\t${c}\n")
  endforeach()
endfunction()
function(catkin_package)
  cmake_parse_arguments(A "SKIP_CMAKE_CONFIG_GENERATION;SKIP_PKG_CONFIG_GENERATION" "" "CATKIN_DEPENDS;INCLUDE_DIRS;LIBRARIES;DEPENDS;CFG_EXTRAS" ${ARGN})
  foreach(c IN LISTS A_CATKIN_DEPENDS)
    file(APPEND "${VERIF_OUT}" "export\t${c}\n")
  endforeach()
endfunction()
foreach(f add_compile_options add_definitions add_compile_definitions include_directories link_directories add_library add_executable add_custom_target
          add_custom_command add_dependencies add_subdirectory target_link_libraries target_include_directories target_compile_options
          target_compile_definitions target_compile_features target_sources set_target_properties install enable_testing enable_language add_test
          link_libraries source_group catkin_install_python)
  cmake_language(EVAL CODE "function(${f})\nendfunction()")
endforeach()
include("${VERIF_FILE}")
