#include "uima/pragmas.hpp"
#include "uima/api.hpp"
#include "uima/internal_casimpl.hpp"
#include "uima/internal_fspromoter.hpp"
#include "uima/xmiwriter.hpp"
#include "uima/xmideserializer.hpp"
#include <iostream>
#include <sstream>
#include <cstdlib>
using namespace uima; using namespace std;
static const char* TSX="<?xml version=\"1.0\"?><typeSystemDescription xmlns=\"http://uima.apache.org/resourceSpecifier\"><name>t</name><types>"
"<typeDescription><name>my.T</name><description/><supertypeName>uima.tcas.Annotation</supertypeName><features>"
"<featureDescription><name>i</name><description/><rangeTypeName>uima.cas.Integer</rangeTypeName></featureDescription>"
"<featureDescription><name>l</name><description/><rangeTypeName>uima.cas.Long</rangeTypeName></featureDescription>"
"<featureDescription><name>d</name><description/><rangeTypeName>uima.cas.Double</rangeTypeName></featureDescription>"
"<featureDescription><name>f</name><description/><rangeTypeName>uima.cas.Float</rangeTypeName></featureDescription>"
"<featureDescription><name>s</name><description/><rangeTypeName>uima.cas.String</rangeTypeName></featureDescription>"
"<featureDescription><name>fs</name><description/><rangeTypeName>uima.cas.TOP</rangeTypeName></featureDescription>"
"<featureDescription><name>ia</name><description/><rangeTypeName>uima.cas.IntegerArray</rangeTypeName></featureDescription>"
"<featureDescription><name>sa</name><description/><rangeTypeName>uima.cas.StringArray</rangeTypeName></featureDescription>"
"<featureDescription><name>il</name><description/><rangeTypeName>uima.cas.IntegerList</rangeTypeName></featureDescription>"
"</features></typeDescription>"
"<typeDescription><name>my.U</name><description/><supertypeName>uima.cas.TOP</supertypeName><features>"
"<featureDescription><name>s2</name><description/><rangeTypeName>uima.cas.String</rangeTypeName></featureDescription>"
"</features></typeDescription>"
"</types></typeSystemDescription>";
struct RM { RM(){ ResourceManager::createInstance("demo"); } ~RM(){ } };
static TypeSystem* mkts(){ ErrorInfo e; TypeSystem*t=Framework::createTypeSystemFromXMLBuffer(TSX,e); if(!t){cerr<<e.asString()<<endl;exit(9);} return t;}
static CAS* mkcas(TypeSystem*ts){ ErrorInfo e; CAS*c=Framework::createCAS(*ts,e); if(!c){cerr<<e.asString()<<endl;exit(9);} return c;}
