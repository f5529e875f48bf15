# A stand-in for catkin: finds the packages there are, and provides the stand-in ROS.
set(catkin_FOUND TRUE)
foreach(c ${catkin_FIND_COMPONENTS})
  list(FIND VERIF_PACKAGES ${c} at)
  if(at EQUAL -1)
    message(FATAL_ERROR "no package called ${c}")
  endif()
endforeach()
set(catkin_INCLUDE_DIRS ${VERIF_INCLUDES})
set(catkin_LIBRARIES ${VERIF_LIBRARY})
function(catkin_package)
endfunction()
