# Included by /repo's own project() call (CMAKE_PROJECT_INCLUDE): the harness
# targets are declared after all of /repo's targets exist.
cmake_language(EVAL CODE
  "cmake_language(DEFER DIRECTORY \"${CMAKE_SOURCE_DIR}\" CALL include [[${CMAKE_CURRENT_LIST_DIR}/targets.cmake]])")
