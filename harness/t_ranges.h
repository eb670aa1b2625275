T(Laik_RangeList)
T(Laik_TaskRange_Gen)
T(Laik_TaskRange_Single1d)
