// Stand-in for the ECSS-E-ST-40-07C header <Smp/IPublication.h>.
#ifndef STANDIN_SMP_IPUBLICATION_H
#define STANDIN_SMP_IPUBLICATION_H
#include <Smp/IField.h>
#include <Smp/IOperation.h>
#include <Smp/IProperty.h>
#include <Smp/IRequest.h>
#include <Smp/Uuid.h>
#include <Smp/ViewKind.h>
#include <Smp/AccessKind.h>
namespace Smp {
namespace Publication { class ITypeRegistry; class IPublishOperation; }
class IPublication {
public:
  virtual ~IPublication() noexcept = default;
  virtual Publication::ITypeRegistry *GetTypeRegistry() const = 0;
  virtual void PublishField(String8 name, String8 description, Char8 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, Bool *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, Int8 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, UInt8 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, Int16 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, UInt16 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, Int32 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, UInt32 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, Int64 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, UInt64 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, Float32 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, Float64 *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(String8 name, String8 description, void *address, Uuid typeUuid, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual void PublishField(IField *field) = 0;
  virtual void PublishArray(String8 name, String8 description, Int64 count, void *address, PrimitiveTypeKind type, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
  virtual IPublication *PublishArray(String8 name, String8 description, ViewKind view = ViewKind::VK_All, Bool state = true) = 0;
  virtual IPublication *PublishStructure(String8 name, String8 description, ViewKind view = ViewKind::VK_All, Bool state = true) = 0;
  virtual Publication::IPublishOperation *PublishOperation(String8 name, String8 description, ViewKind view = ViewKind::VK_None) = 0;
  virtual void PublishProperty(String8 name, String8 description, Uuid typeUuid, AccessKind accessKind, ViewKind view = ViewKind::VK_None) = 0;
  virtual IField *GetField(String8 fullName) const = 0;
  virtual const FieldCollection *GetFields() const = 0;
  virtual const PropertyCollection *GetProperties() const = 0;
  virtual const OperationCollection *GetOperations() const = 0;
  virtual IRequest *CreateRequest(String8 operationName) = 0;
  virtual void DeleteRequest(IRequest *request) = 0;
  virtual void Unpublish() = 0;
};
}
#endif
