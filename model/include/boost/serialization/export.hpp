// Stand-in used only for the symbolic encoding: no static registration.
#ifndef VERIF_EXPORT_HPP
#define VERIF_EXPORT_HPP
#define BOOST_CLASS_EXPORT(...)
#define BOOST_CLASS_EXPORT_KEY(...)
#define BOOST_CLASS_EXPORT_IMPLEMENT(...)
#define BOOST_CLASS_EXPORT_GUID(...)
#endif
