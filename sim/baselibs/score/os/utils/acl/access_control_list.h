#pragma once
#include "score/os/utils/acl/i_access_control_list.h"
namespace score::os {
class AccessControlList : public IAccessControlList { public: explicit AccessControlList(Acl::FileDescriptor fd) : fd_{fd} {}
    score::cpp::expected_blank<Error> AllowUser(const UserIdentifier u, const Acl::Permission p) override { return skd::blank(sk_acl_allow(fd_, u, p == Acl::Permission::kRead ? 4 : p == Acl::Permission::kWrite ? 2 : 1)); }
    score::cpp::expected<bool, Error> VerifyMaskPermissions(const std::vector<Acl::Permission>&) const override { return true; }
    score::cpp::expected<std::vector<UserIdentifier>, Error> FindUserIdsWithPermission(const Acl::Permission) const noexcept override { return std::vector<UserIdentifier>{}; }
  private: int fd_; };
}
