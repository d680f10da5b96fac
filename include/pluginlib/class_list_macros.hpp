#ifndef VS_PLUGINLIB_MACROS_H_
#define VS_PLUGINLIB_MACROS_H_
#define PLUGINLIB_EXPORT_CLASS(A, B)
#endif
